From ecdfa136df10c855fc3ed319c15a2504d7d7317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 001/110] fix: copyElements must advance its counter, not the
 element count

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From 9ce6e534514c3d0754079700119079d7351c34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 002/110] fix: moveElements to a higher overlapping address did
 nothing

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..e57fd78 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -145,7 +145,7 @@ struct GenericPlatformMemory
 				dst[i] = move(src[i]);
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(src < dst))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
-- 
2.43.0


From 4344698ace7864adc44955b977b91e2e92cc66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 003/110] fix: constructCopyElements must copy construct
 elements that are not trivially copyable

---
 src/korin/core/public/generic/generic_platform_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index e57fd78..e1b862c 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -77,7 +77,7 @@ struct GenericPlatformMemory
 
 	/**
 	 * Copy elements from source to destination.
-	 * If elements are not trivially constructible
+	 * If elements are not trivially copyable
 	 * invoke copy constructor on each element,
 	 * otherwise a simple memory copy is performed.
 	 * 
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
+		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From 90e664dd4025e146723b4cdd291a28df4ab309c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 004/110] fix: memcmp must return the sign of the first
 difference

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index e1b862c..f76508d 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -51,7 +51,7 @@ struct GenericPlatformMemory
 	 * 	mem0 is greater than the corresponding
 	 * 	byte in mem1
 	 */
-	static FORCE_INLINE bool memcmp(const void * mem0, const void * mem1, sizet size)
+	static FORCE_INLINE int32 memcmp(const void * mem0, const void * mem1, sizet size)
 	{
 		return ::memcmp(mem0, mem1, size);
 	}
-- 
2.43.0


From e6a17e4084d2071d9bd3b4e229c8d9cc7983723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 005/110] fix: Array growth never destroyed the elements of the
 old buffer

---
 src/korin/core/public/containers/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..7b35efe 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -319,6 +319,7 @@ protected:
 			if (buffer)
 			{
 				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::destroyElements(buffer, buffer + count);
 				malloc.free(buffer);
 			}
 
-- 
2.43.0


From e1864f850d9d61d088fa63986b697d67cdac2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 006/110] fix: Array::insertAt at the end copied elements past
 the old buffer

---
 src/korin/core/public/containers/array.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 7b35efe..a2e2cb5 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -674,7 +674,12 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			// Resize first, only the current elements can be copied
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
@@ -695,7 +700,12 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			// Resize first, only the current elements can be copied
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From d1142fa0dea5e294cb830c151996309659abec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 007/110] fix: Array::removeAt assigned to destroyed elements
 and never destroyed the last ones

---
 src/korin/core/public/containers/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index a2e2cb5..dafa609 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -790,12 +790,12 @@ public:
 	{
 		if (num > 0)
 		{
-			// Destroy element
-			Memory::destroyElements(buffer + idx, buffer + idx + num);
-
 			// Move elements to the left
 			Memory::moveElements(buffer + idx, buffer + idx + num, count - (idx + num));
 
+			// Destroy elements left at the end
+			Memory::destroyElements(buffer + count - num, buffer + count);
+
 			// Decrement count
 			count -= num;
 		}
-- 
2.43.0


From 3b0f8b08003c3a8f4e173a491fc1d683856b2602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 008/110] fix: Array::removeLast never destroyed the element

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index dafa609..6280c85 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -818,7 +818,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From 3a44ff504923f1e2b782bfed40eae8235c5418c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 009/110] fix: Array copies constructed every element twice

---
 src/korin/core/public/containers/array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 6280c85..09bdfa3 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -389,12 +389,14 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack}
 	{
 		CHECK(buffer != nullptr)
+		count = inCount;
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer) Memory::constructCopyElements(buffer, inBuffer, count);
+		else Memory::constructDefaultElements(buffer, buffer + count);
 	}
 
 	/**
-- 
2.43.0


From c49cfc3e661fb40fc360ef04120deffde00a6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 010/110] fix: Array self move assignment lost the content

---
 src/korin/core/public/containers/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 09bdfa3..d3e3882 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -474,6 +474,8 @@ public:
 	 */
 	Array & operator=(Array && other)
 	{
+		if (this == &other) return *this;
+
 		// Destroy first
 		destroy();
 		
-- 
2.43.0


From 070b9890e0b80727ff16a50b654c3c74a808cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 011/110] fix: Array insertions assigned to unconstructed
 memory and constructed over live elements

---
 src/korin/core/public/containers/array.h      |  8 ++---
 .../public/generic/generic_platform_memory.h  | 29 +++++++++++++++++++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index d3e3882..0371bf0 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -675,7 +675,7 @@ public:
 			resizeIfNecessary(count + 1);
 
 			// Move elements up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			Memory::relocateElementsUp(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
 		else
@@ -701,7 +701,7 @@ public:
 			resizeIfNecessary(count + numArgs);
 
 			// Move element up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			Memory::relocateElementsUp(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
 		else
@@ -730,7 +730,7 @@ public:
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
-		Memory::moveElements(buffer + 1, buffer, count);
+		Memory::relocateElementsUp(buffer + 1, buffer, count);
 		++count;
 
 		// Copy construct element
@@ -744,7 +744,7 @@ public:
 
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
-		Memory::moveElements(buffer + numArgs, buffer, count);
+		Memory::relocateElementsUp(buffer + numArgs, buffer, count);
 		count += numArgs;
 
 		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index f76508d..a4235ed 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -164,6 +164,35 @@ struct GenericPlatformMemory
 	}
 	/// @}
 
+	/**
+	 * Relocate elements upwards: construct
+	 * each element on unconstructed memory
+	 * and destroy the original. Ranges may
+	 * overlap, the memory left by originals
+	 * is unconstructed.
+	 * 
+	 * @param dst destination, not before src
+	 * @param src source buffer
+	 * @param n number of elements
+	 * @{
+	 */
+	template<typename TT>
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type relocateElementsUp(TT * dst, TT * src, uint64 n)
+	{
+		for (uint64 i = 1; i <= n; ++i)
+		{
+			new (dst + (n - i)) TT{move(src[n - i])};
+			src[n - i].~TT();
+		}
+	}
+
+	template<typename TT>
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type relocateElementsUp(TT * dst, TT * src, uint64 n)
+	{
+		memmov(dst, src, n * sizeof(TT));
+	}
+	/// @}
+
 	/**
 	 * Destroy elements in range
 	 * 
-- 
2.43.0


From 0b03b06bc47e95c4f68a8188e8b7cab967ff03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 012/110] fix: a moved from container had no allocator left and
 crashed when used again

---
 src/korin/core/public/hal/malloc_object.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_object.h b/src/korin/core/public/hal/malloc_object.h
index 3caf770..ecd9875 100644
--- a/src/korin/core/public/hal/malloc_object.h
+++ b/src/korin/core/public/hal/malloc_object.h
@@ -43,7 +43,7 @@ public:
 	FORCE_INLINE MallocObject(MallocObject && other)
 		: malloc{other.malloc}
 	{
-		other.malloc = nullptr;
+		//
 	}
 
 	/**
@@ -52,8 +52,6 @@ public:
 	FORCE_INLINE MallocObject & operator=(MallocObject && other)
 	{
 		malloc = other.malloc;
-		other.malloc = nullptr;
-
 		return *this;
 	}
 
-- 
2.43.0


From 2d2b7b76e2e2b7b247db9e48f762acb0684bf90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 013/110] fix: inserting an array's own item read it after it
 was moved or freed

---
 src/korin/core/public/containers/array.h | 42 +++++++++++++++++-------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 0371bf0..42c9f87 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -588,7 +588,9 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			// Value could be one of our own items
+			T newItem{forward<ItemT>(initValue)};
+			return *(new (&(operator()(idx))) T{move(newItem)});
 		}
 		
 		return operator()(idx);
@@ -670,6 +672,9 @@ public:
 	{
 		const uint64 j = idx + 1;
 
+		// Item could be one of our own items
+		T newItem{forward<ItemT>(item)};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + 1);
@@ -685,8 +690,8 @@ public:
 			count = j;
 		}
 		
-		// Copy construct element
-		return insertNoResize(idx, forward<ItemT>(item));
+		// Move construct element
+		return insertNoResize(idx, move(newItem));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -696,6 +701,9 @@ public:
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
 		const uint64 j = idx + numArgs;
 
+		// Items could be some of our own items
+		T newItems[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + numArgs);
@@ -711,8 +719,8 @@ public:
 			count = j;
 		}
 		
-		// Copy construct elements
-		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		// Move construct elements
+		for (uint64 i = 0; i < numArgs; ++i) insertNoResize(idx + i, move(newItems[i]));
 	}
 	/** @} */
 
@@ -727,14 +735,17 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
+		// Item could be one of our own items
+		T newItem{forward<ItemT>(item)};
+
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
 		Memory::relocateElementsUp(buffer + 1, buffer, count);
 		++count;
 
-		// Copy construct element
-		return insertNoResize(0, forward<ItemT>(item));
+		// Move construct element
+		return insertNoResize(0, move(newItem));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -742,12 +753,15 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
+		// Items could be some of our own items
+		T newItems[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
 		Memory::relocateElementsUp(buffer + numArgs, buffer, count);
 		count += numArgs;
 
-		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		for (uint64 i = 0; i < numArgs; ++i) insertNoResize(i, move(newItems[i]));
 	}
 	/// @}
 
@@ -762,8 +776,11 @@ public:
 	template<typename ItemT>
 	T & insertLast(ItemT && item)
 	{
+		// Item could be one of our own items
+		T newItem{forward<ItemT>(item)};
+
 		resizeIfNecessary(count + 1);
-		return insertNoResize(count++, forward<ItemT>(item));
+		return insertNoResize(count++, move(newItem));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -771,9 +788,12 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
-		// Resize and copy construct elements
+		// Items could be some of our own items
+		T newItems[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
+		// Resize and move construct elements
 		resizeIfNecessary(count + numArgs);
-		insertNoResize(count, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		for (uint64 i = 0; i < numArgs; ++i) insertNoResize(count + i, move(newItems[i]));
 
 		count += numArgs;
 	}
-- 
2.43.0


From dadfdf3fcdf86f480fc4c4f38b5a71eff2ecf70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 014/110] fix: NonCopyable could not be constructed, so
 MallocObject with its own allocator did not compile

---
 src/korin/core/public/templates/types.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d925316..6c8cb59 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -368,6 +368,8 @@ public:
  */
 struct NonCopyable
 {
+	NonCopyable() = default;
+
 private:
 	NonCopyable(const NonCopyable&) = delete;
 	NonCopyable& operator=(const NonCopyable&) = delete;
-- 
2.43.0


From 1526b277665044bde7ebe1063c1ffd069007b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 015/110] fix: pool block links were misaligned unless the
 block size was a multiple of the pointer size

---
 src/korin/core/public/hal/malloc_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/hal/malloc_pool.h b/src/korin/core/public/hal/malloc_pool.h
index 3a9c1a6..5d0078f 100644
--- a/src/korin/core/public/hal/malloc_pool.h
+++ b/src/korin/core/public/hal/malloc_pool.h
@@ -125,7 +125,8 @@ protected:
 	 */
 	void ** getBlockLink(void * block) const
 	{
-		return (void**)((uintp)block + blockSize);
+		// Last bytes of the block, always aligned
+		return (void**)((uintp)block + logicalBlockSize - blockLinkSize);
 	}
 
 	/**
-- 
2.43.0


From b69e0d948cfbda217ae23c5013b3b8621ccf8f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 016/110] fix: a memory pool of zero blocks dereferenced null

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..8e485c7 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -42,8 +42,8 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	}
 	
 	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	head = link ? buffer : nullptr;
+	if (link) *link = nullptr;
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From 0637464132b74d011e8ff69f32d6dba333bef960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 017/110] fix: MallocPool::realloc released and returned a
 block too small for the request

---
 src/korin/core/private/hal/malloc_pool.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 8e485c7..32f723a 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -103,10 +103,8 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 
 	if (LIKELY(pool.hasBlock(orig)))
 	{
-		if (size > pool.blockSize)
-		{
-			pool.releaseBlock(orig);
-		}
+		if (size > pool.blockSize || alignment > pool.blockAlignment)
+			out = nullptr; // Cannot be served, block is left untouched
 		else
 			; // Return original block
 	}
-- 
2.43.0


From 603b55ac5f5786618d45490741f082f5a58f9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 018/110] fix: MallocPooled sized pools for the raw alignment,
 so small alignments overflowed them and could not grow

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32f723a..492c2ac 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -133,8 +133,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
-- 
2.43.0


From 157a9adf20f45f3e9f37e5251a71b983479681c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 019/110] fix: MallocPooled without initial pools dereferenced
 null

---
 src/korin/core/private/hal/malloc_pool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 492c2ac..edcf5cd 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -157,7 +157,7 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 
 MallocPooled::~MallocPooled()
 {
-	Node * next = root->getMin(), * prev = nullptr;
+	Node * next = root ? root->getMin() : nullptr, * prev = nullptr;
 	while (next)
 	{
 		prev = next;
@@ -198,14 +198,16 @@ void * MallocPooled::alloc(sizet size, sizet alignment)
 
 	if (size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment)
 	{
-		MemoryPool * pool = head->data;
+		MemoryPool * pool = head ? head->data : nullptr;
 
 		// Create a new pool if necessary
-		if (pool->isExhausted())
+		if (!pool || pool->isExhausted())
 		{
 			void * buffer = nullptr;
 			if (posix_memalign(&buffer, poolInfo.blockAlignment, poolAllocSize) == 0)
 				pool = createPool(buffer);
+			else if (!pool)
+				return nullptr;
 		}
 
 		// Acquire block from pool
-- 
2.43.0


From 34576baf661872da14ac79289cf855d31913e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 020/110] fix: MallocPooled::realloc returned a block too small
 for the request

---
 src/korin/core/private/hal/malloc_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index edcf5cd..0445c44 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -230,6 +230,9 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
+	// Cannot be served, block is left untouched
+	if (size > poolInfo.blockSize || alignment > poolInfo.blockAlignment) return nullptr;
+
 	return orig;
 }
 
-- 
2.43.0


From 14fd50d45031d638c89924d471563b1e2b8e3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 021/110] fix: MallocPooled never used the released blocks of
 exhausted pools again

---
 src/korin/core/private/hal/malloc_pool.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 0445c44..cb1d224 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -254,5 +254,24 @@ void MallocPooled::free(void * orig)
 	}
 
 	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		MemoryPool * pool = it->data;
+		const bool wasExhausted = pool->isExhausted();
+		pool->releaseBlock(orig);
+
+		// Move back to front
+		Link * link = reinterpret_cast<Link*>(it + 1);
+		if (wasExhausted && link != head)
+		{
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From ab27143571939141a0696126db665ac18d5170a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 022/110] fix: MallocBinned never destroyed its buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 5 +++++
 src/korin/core/public/hal/malloc_binned.h    | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..bdf4267 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,11 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	for (uint32 i = 0; i < numBuckets; ++i) delete buckets[i];
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..a2cd70d 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,14 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/// Owns its buckets, cannot be copied
+	MallocBinned(const MallocBinned&) = delete;
+
+	/**
+	 * Destructor, destroys all buckets.
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From f1827f08a151afc7cd4ae51978bed9530d715d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 023/110] fix: MallocBinned could not serve all sizes up to its
 maximum

---
 src/korin/core/private/hal/malloc_binned.cpp |  4 ++--
 src/korin/core/public/hal/malloc_binned.h    | 22 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index bdf4267..21faefd 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -5,7 +5,7 @@
 //////////////////////////////////////////////////
 
 MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
-	: numBuckets{(uint32)((PlatformMath::log2(inInfo.allocUnitMaxSize) - PlatformMath::log2(inInfo.allocUnitMinSize)) / PlatformMath::log2(inInfo.allocUnitIncrement))}
+	: numBuckets{computeNumBuckets(inInfo)}
 	, bucketInfo{inInfo}
 	, poolAlign{PlatformMath::max(inPoolAlign, MIN_ALIGNMENT)}
 	, buckets{numBuckets}
@@ -19,7 +19,7 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	)
 	{
 		// Create bucket
-		buckets.add(new MallocPooled{numBlocks, blockSize, poolAlign, 1});
+		buckets.add(new MallocPooled{PlatformMath::max(numBlocks, 1u), blockSize, poolAlign, 1});
 	}
 }
 
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index a2cd70d..fa52a50 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -59,6 +59,20 @@ public:
 	virtual ~MallocBinned();
 
 protected:
+	/**
+	 * Compute number of buckets required
+	 * to serve all sizes in range.
+	 * 
+	 * @param info bucket configuration
+	 * @return number of buckets
+	 */
+	static uint32 computeNumBuckets(const BucketInfo & info)
+	{
+		uint32 num = 1;
+		for (sizet size = info.allocUnitMinSize; size < info.allocUnitMaxSize; size *= info.allocUnitIncrement) ++num;
+		return num;
+	}
+
 	/**
 	 * Compute bucket index from requested
 	 * size in Bytes. size cannot be zero.
@@ -71,8 +85,12 @@ protected:
 	{
 		CHECK(size != 0);
 
-		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		if (size > bucketInfo.allocUnitMaxSize) return numBuckets;
+
+		// Find smallest bucket that fits
+		uint32 idx = 0;
+		for (sizet unitSize = bucketInfo.allocUnitMinSize; unitSize < size; unitSize *= bucketInfo.allocUnitIncrement) ++idx;
+		return idx;
 	}
 
 public:
-- 
2.43.0


From 305acfb5fc8d1450fd4db4ebfbe72314b656009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 024/110] fix: MallocBinned::realloc lost the block and its
 content

---
 src/korin/core/private/hal/malloc_binned.cpp | 23 +++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 21faefd..9585164 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -48,7 +48,28 @@ void * MallocBinned::alloc(sizet size, sizet alignment)
 
 void * MallocBinned::realloc(void * orig, sizet size, sizet alignment)
 {
-	// TODO
+	if (!orig) return alloc(size, alignment);
+
+	for (uint32 i = 0; i < numBuckets; ++i)
+	{
+		MallocPooled * bucket = buckets[i];
+		if (bucket->hasBlock(orig))
+		{
+			// Keep block if large enough
+			if (bucket->realloc(orig, size, alignment)) return orig;
+
+			// Move to another bucket
+			void * out = alloc(size, alignment);
+			if (out)
+			{
+				Memory::memcpy(out, orig, PlatformMath::min(size, bucket->poolInfo.blockSize));
+				bucket->free(orig);
+			}
+
+			return out;
+		}
+	}
+
 	return nullptr;
 }
 
-- 
2.43.0


From 6b984cf8b9533e6d9f2d02cf243929baabb0774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 025/110] fix: appending a string to itself read freed memory

---
 src/korin/core/public/containers/string.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..efe86af 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -304,9 +304,13 @@ private:
 	{
 		const sizet currLen = getLength();
 		
+		// Source could be part of this string
+		const bool isOwn = src >= *array && src <= *array + currLen;
+		const sizet srcPos = isOwn ? src - *array : 0;
+
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, isOwn ? *array + srcPos : src, len);
 
 		return *this;
 	}
-- 
2.43.0


From f5373420b0c604262b67555e3e2e76d0fd977700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 026/110] fix: String operator<<= returned nothing and kept the
 tail of longer content

---
 src/korin/core/public/containers/string.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index efe86af..e244609 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -452,8 +452,12 @@ private:
 	 */
 	StringBase & printString(const CharT * src, sizet len)
 	{
+		// Drop previous content
+		array.empty();
 		array(len) = '\0';
 		Memory::memcpy(*array, src, len);
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 35530c599eabad7eb76da59fa89e2e2f413810d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 027/110] fix: String::format of more than 1023 characters read
 past its buffer

---
 src/korin/core/public/containers/string.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index e244609..bcd4522 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -562,8 +562,13 @@ public:
 		char buff[maxlen] = {};
 
 		// Print and return new string
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		int32 len = snprintf(buff, maxlen, format, args...);
+		if (len < (int32)maxlen) return StringBase{buff, (sizet)len};
+
+		// Did not fit, but now we know the length
+		StringBase out{(sizet)len, '\0'};
+		snprintf(*out, len + 1, format, args...);
+		return out;
 	}
 
 	/**
-- 
2.43.0


From d88bc920722afb8cbbc38a1fe7d57eba0838f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 028/110] fix: an empty String of capacity n reported length n

---
 src/korin/core/public/containers/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index bcd4522..5ad5d37 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -32,9 +32,9 @@ public:
 	 * @param n string capacity
 	 */
 	explicit FORCE_INLINE StringBase(sizet n)
-		: array{nullptr, n + 1}
+		: array(n + 1)
 	{
-		array[0] = '\0';
+		array(0) = '\0';
 	}
 
 	/**
@@ -64,7 +64,7 @@ public:
 	 * @param len source length (in Bytes)
 	 */
 	FORCE_INLINE StringBase(const CharT * src, sizet n)
-		: StringBase{n}
+		: array{nullptr, n + 1}
 	{
 		// Copy source and terminate string
 		Memory::memcpy(*array, src, n);
-- 
2.43.0


From 628d407c2024e5417b8bb5021afba532432c7171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 029/110] fix: String::splice without replacement was ambiguous
 and did not compile

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 5ad5d37..70a2554 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -633,7 +633,7 @@ public:
 		return splice(pos, len, *inserted, inserted.getLength());
 	}
 
-	StringBase & splice(sizet pos, sizet len, const CharT * cStr = "")
+	StringBase & splice(sizet pos, sizet len, const CharT * cStr)
 	{
 		return splice(pos, len, cStr, PlatformStrings::getLength(cStr));
 	}
-- 
2.43.0


From 6be42e491da4c8e4f4097d37b3eb694db214b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 030/110] fix: splicing part of a string into itself read freed
 or shifted memory

---
 src/korin/core/public/containers/string.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 70a2554..4787254 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -590,6 +590,12 @@ private:
 	 */
 	StringBase & splice(sizet subPos, sizet subLen, const CharT * replSrc, sizet replLen)
 	{
+		// Replacement could be part of this string
+		if (replSrc >= *array && replSrc <= *array + getLength())
+		{
+			const StringBase repl{replSrc, replLen};
+			return splice(subPos, subLen, *repl, replLen);
+		}
 		if (replLen <= subLen)
 		{
 			// Since replacement string is smaller
-- 
2.43.0


From c90f9236af0856f7e52f3cb03331495ee9508ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 031/110] fix: String::findIndex from beyond the end read
 outside of the string

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 4787254..f8b9630 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -665,7 +665,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From 6de8e863f11cfe2eaa05d33e79faf20fc41225dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 032/110] fix: String::replaceAll with itself as argument used
 the text being replaced

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index f8b9630..e3cd66a 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -725,6 +725,9 @@ public:
 	 */
 	StringBase & replaceAll(const StringBase & pattern, const StringBase & replacement)
 	{
+		// Pattern or replacement must not change while replacing
+		if (&pattern == this || &replacement == this) return replaceAll(StringBase{pattern}, StringBase{replacement});
+
 		sizet patternLen = pattern.getLength();
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
-- 
2.43.0


From c2d7705282ba5293caa710a93832ea6a5579438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 033/110] fix: String::replaceAll with an empty pattern never
 terminated

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index e3cd66a..3ec3e1a 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -732,6 +732,9 @@ public:
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// Nothing to replace
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From b70b8b2f687e1a373274c99d599e398cef5cceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 034/110] fix: List move assignment returned nothing and
 emptied a list moved to itself

---
 src/korin/core/public/containers/list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..2e043a8 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -339,6 +339,8 @@ public:
 	 */
 	FORCE_INLINE List & operator=(List && other)
 	{
+		if (this == &other) return *this;
+
 		// Remove all
 		empty();
 
@@ -350,6 +352,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From fe47d5c106e3bd87bd49cfb2646df9a13f8ca919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 035/110] fix: pushing several values on a List moved out of
 the caller's variables

---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 2e043a8..a36057a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -468,7 +468,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -516,7 +516,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From 4b6d06030a5313b6e36eb50c8eb66404515c1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 036/110] fix: removing the first or last link of a List left a
 dangling link behind

---
 src/korin/core/public/containers/list.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index a36057a..45dfad7 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -525,19 +525,14 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
-		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+
+		if (prev) prev->next = next;
+		if (next) next->prev = prev;
+
+		if (link == head) head = next;
+		if (link == tail) tail = prev;
 
 		--length;
 
-- 
2.43.0


From 6df557251b518c091d5ac1e2106f138d2ec99028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 037/110] fix: copy assigning a shorter List kept the old
 length

---
 src/korin/core/public/containers/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 45dfad7..8a351af 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -318,6 +318,7 @@ public:
 				LinkT * link = it;
 				it = it->next;
 				destroyLink(link);
+				--length;
 			}
 
 			// Push remaining objects
-- 
2.43.0


From b160b06b76acb3aba4c798b3927e570e6a96cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 038/110] fix: BinaryNode::getNumNodes did not compile

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..43052f2 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(BinaryNode * root)
+	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From fed178242ce6061161ef2df1a94b168ac5cec675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 039/110] fix: copying an empty tree dereferenced null

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 43052f2..c5d8c13 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		root = other.root ? cloneSubtree(other.root) : nullptr;
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From e3639516e2dadab3d6f365de9a2456d71d433624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 040/110] fix: moving a tree to itself destroyed its nodes and
 kept them

---
 src/korin/core/public/containers/tree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index c5d8c13..4672d42 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1153,6 +1153,8 @@ public:
 	 */
 	FORCE_INLINE BinaryTree & operator=(BinaryTree && other)
 	{
+		if (this == &other) return *this;
+
 		// Destroy subtree
 		if (root) destroySubtree(root);
 
-- 
2.43.0


From 4f28ac3d05930d1340a1deed27a60e2487806ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 041/110] fix: retrieving an item from a const Set did not
 compile

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..a6deec8 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0


From 79a1292aa16b71bed05006ad397fac580de0375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 042/110] fix: Set::any ignored its first argument

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index a6deec8..94e5a76 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return (get(key) || ... || get(keys));
 	}
 
 	/**
-- 
2.43.0


From 335078b0dcf25f40024fc6f6ef9271389d2c70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 043/110] fix: strict Set inclusion was false when the larger
 set only had greater items left

---
 src/korin/core/public/containers/set.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 94e5a76..f07e321 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -647,8 +647,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !it && !eq;
+		// Return true only if other has more elements
+		return !it && (jt || !eq);
 	}
 
 	/**
@@ -697,8 +697,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !jt && !eq;
+		// Return true only if this has more elements
+		return !jt && (it || !eq);
 	}
 
 private:
-- 
2.43.0


From 0e35c7a7ef30a73fe1dc137db8202e3ebba8b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 044/110] fix: subtracting a Set from itself used removed nodes

---
 src/korin/core/public/containers/set.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index f07e321..06d4924 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,12 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		if (this == &other)
+		{
+			// Nothing is left
+			tree.empty();
+			return *this;
+		}
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From 34f53f3d1414d7d1e12de8f04d1f20b4937597c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 045/110] fix: a List with its own allocator returned its links
 after the allocator was gone

---
 src/korin/core/public/containers/list.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 8a351af..42b623e 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -703,6 +703,15 @@ public:
 		//
 	}
 
+	/**
+	 * Destroy list before destroying
+	 * managed allocator.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From 3e67af80fb78bb5935f1769aff5287a38c2cfc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 046/110] fix: Sort::partition returned nothing

---
 src/korin/core/public/algorithm/sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..54ef229 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -37,6 +37,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From 940bcc80daa99c84e426a011ac875b8900586d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 047/110] fix: Optional destroyed values that did not exist or
 were already destroyed

---
 src/korin/core/public/templates/optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..9619344 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -183,7 +183,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -271,11 +271,12 @@ protected:
 		}
 
 		/**
-		 * Destructor.
+		 * Destructor, the optional decides
+		 * whether there is a value to destroy.
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			//
 		}
 
 		/// Empty byte
-- 
2.43.0


From 9dfa72b1fbf0079c46085371227653ca030f0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 048/110] fix: Optional::emplace never destroyed the value it
 replaced

---
 src/korin/core/public/templates/optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 9619344..85d1475 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,6 +130,9 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
+		// Destroy existing object, if any
+		reset();
+
 		engaged = true;
 		new (&storage.value) T{forward<ArgsT>(args)...};
 	}
-- 
2.43.0


From 23f8b7c9da0b570c92ab49b167ef5d5db8f6398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 049/110] fix: moving from an Optional never destroyed the
 moved value, moving to itself lost it

---
 src/korin/core/public/templates/optional.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 85d1475..ef3c9ee 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -75,17 +75,23 @@ struct Optional
 	 */
 	constexpr FORCE_INLINE Optional & operator=(Optional && other)
 	{
+		if (this == &other)
+		{
+			// Nothing to move
+			return *this;
+		}
+		
 		if (other.engaged && this->engaged)
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From d832033f545f9249eeef6339fadde29cfef8c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 050/110] fix: templates/function.h did not include the
 allocator it uses

---
 src/korin/core/public/templates/function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..cb6fc4e 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -3,6 +3,7 @@
 #include "core_types.h"
 #include "templates/types.h"
 #include "templates/utility.h"
+#include "hal/malloc_ansi.h"
 
 /**
  * @{
-- 
2.43.0


From c428d1b80687afc0d6d28593c4161098e656f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 051/110] fix: Function referenced lvalue targets instead of
 owning them, function pointers did not compile

---
 src/korin/core/public/templates/function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index cb6fc4e..5bf7024 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -172,7 +172,8 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		// Own a copy of the functor, even if it is an lvalue
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From 592f229fd5971acdb888ad3c3fe76744fef638b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 052/110] fix: copies of a Function had no target

---
 src/korin/core/public/templates/function.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 5bf7024..d814bd4 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -48,6 +48,10 @@ struct FunctionOwnedObjectInterface
 	 */
 	virtual void * getAddress() = 0;
 
+	/**
+	 * Returns a copy of the owned object
+	 */
+	virtual FunctionOwnedObjectInterface * clone() const = 0;
 	/**
 	 * 
 	 */
@@ -111,6 +115,12 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * clone() const override
+	{
+		void * heap = MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject));
+		return new (heap) FunctionOwnedObject{object};
+	}
 };
 
 /**
@@ -181,6 +191,15 @@ struct FunctionStorage : FunctionStorageBase
 
 		return &object->object;
 	}
+
+	/**
+	 * Bind a copy of the object owned
+	 * by another storage
+	 */
+	FORCE_INLINE void bindCopy(const FunctionStorage & other)
+	{
+		heap = other.getOwnedObject()->clone();
+	}
 };
 
 /**
@@ -241,7 +260,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 		: callable{other.callable}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (callable) storage.bindCopy(other.storage);
 	}
 
 	/**
-- 
2.43.0


From da2aadc384acd3ffd780a15ba7dd06a2010dafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 053/110] fix: Function copy assignment did not compile, move
 assignment recursed endlessly

---
 src/korin/core/public/templates/function.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index d814bd4..71459f6 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -356,7 +356,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
+		Function copy{other};
+		swapTarget(copy);
 		return *this;
 	}
 
@@ -365,7 +366,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		Function moved{move(other)};
+		swapTarget(moved);
 		return *this;
 	}
 
@@ -376,4 +378,14 @@ public:
 	{
 		return !!this->callable;
 	}
+
+protected:
+	/**
+	 * Swap target with another function
+	 */
+	FORCE_INLINE void swapTarget(Function & other)
+	{
+		swap(this->callable, other.callable);
+		swap(this->storage.heap, other.storage.heap);
+	}
 };
\ No newline at end of file
-- 
2.43.0


From 005da18d7c30b7892eabdaa49fc67a78da66a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 054/110] fix: copying a StaticArray variable did not compile

---
 src/korin/core/public/templates/array.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..6ad9ad4 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -30,6 +30,25 @@ struct StaticArray
 		//
 	}
 
+	/**
+	 * Copy constructor, the variadic
+	 * constructor must not accept a
+	 * non-const array.
+	 * @{
+	 */
+	constexpr StaticArray(const StaticArray & other) = default;
+	constexpr StaticArray(StaticArray & other) = default;
+	constexpr StaticArray(StaticArray && other) = default;
+	/** @} */
+
+	/**
+	 * Copy assignment.
+	 * @{
+	 */
+	constexpr StaticArray & operator=(const StaticArray & other) = default;
+	constexpr StaticArray & operator=(StaticArray && other) = default;
+	/** @} */
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From d92cc0444b34dc3d71f84fdf8a40f9879ff58a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 055/110] fix: comparing pairs recursed endlessly instead of
 comparing their keys

---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From f94bdba3bb9b476506b2f6d96bc9852c7a96131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 056/110] fix: Vec4 operators with a scalar on the left did not
 compile

---
 src/korin/core/public/math/vec4.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..948d2c7 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,22 +262,22 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return v + s;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} - v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return v * s;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} / v;
 	}
 	/// @}
 
-- 
2.43.0


From cfca5e6ae8d55088ce631e25ac2bb684a1ef191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 057/110] fix: scalar minus vector and scalar over vector were
 computed with the operands exchanged

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..92502a2 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} - v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} / v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..11afc3a 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} - v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} / v;
 	}
 	/// @}
 
-- 
2.43.0


From e632846f18784d514f2a73cc143ed33788cddbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 058/110] fix: the cross product of integer Vec2 did not
 compile

---
 src/korin/core/public/math/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 92502a2..05b057e 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -285,7 +285,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	 */
 	FORCE_INLINE Vec3<T> operator^(Vec2 other) const
 	{
-		return Vec3<T>{0.f, 0.f, x * other.y - y * other.x};
+		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};
 	}
 
 	/**
-- 
2.43.0


From 6079c42452cd803fa3290e6812023f1086db7895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 059/110] fix: the size of a vector of doubles was undefined

---
 src/korin/core/public/math/vec2.h | 6 ++++++
 src/korin/core/public/math/vec3.h | 6 ++++++
 src/korin/core/public/math/vec4.h | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 05b057e..8e53958 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -384,4 +384,10 @@ template<>
 FORCE_INLINE float32 Vec2<float32>::getSize() const
 {
 	return PlatformMath::sqrt(getSquaredSize());
+}
+
+template<>
+FORCE_INLINE float64 Vec2<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
 }
\ No newline at end of file
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 11afc3a..2279aa4 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -417,6 +417,12 @@ FORCE_INLINE float32 Vec3<float32>::getSize() const
 	return PlatformMath::sqrt(getSquaredSize());
 }
 
+template<>
+FORCE_INLINE float64 Vec3<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
+}
+
 template<>
 FORCE_INLINE bool Vec3<float32>::isNearlyZero() const
 {
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 948d2c7..0124526 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -398,4 +398,10 @@ template<>
 FORCE_INLINE float32 Vec4<float32>::getSize() const
 {
 	return PlatformMath::sqrt(getSquaredSize());
+}
+
+template<>
+FORCE_INLINE float64 Vec4<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
 }
\ No newline at end of file
-- 
2.43.0


From 91cf85ec00f120a2ee2a6b553765e4634fc382bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 060/110] fix: constructing a Quat from a rotation vector was
 ambiguous and did not compile

---
 src/korin/core/public/math/quat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..1403c03 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -47,8 +47,10 @@ public:
 	/**
 	 * Constructs from physics rotation vector
 	 */
-	FORCE_INLINE Quat(Vec3<float32> v)
+	FORCE_INLINE Quat(const Vec3<float32> & inVector)
 	{
+		// Must hide the inherited Vec4 constructor
+		Vec3<float32> v = inVector;
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-- 
2.43.0


From dd9574265bccd7942b05499f839382e43d8c0b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 061/110] fix: the axis extracted from a Quat had w in place of
 z

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 1403c03..a7ab17b 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -74,7 +74,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From 7c50b9e3f1aca6341db74b92366b62cefba7e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 062/110] fix: the axis extracted from an identity Quat was not
 a number

---
 src/korin/core/public/math/quat.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index a7ab17b..7983c13 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -71,9 +71,18 @@ public:
 	FORCE_INLINE void getAngleAndAxis(float32 & outAngle, Vec3<float32> & outAxis) const
 	{
 		float32 a = PlatformMath::acos(this->w);
-		float32 s = 1.f / PlatformMath::sin(a);
+		float32 s = PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
+
+		if (s == 0.f)
+		{
+			// No rotation, any axis
+			outAxis = Vec3<float32>::right;
+			return;
+		}
+
+		s = 1.f / s;
 		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
-- 
2.43.0


From 6b14a01656eabe440f7dfc15b336e596b765bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:10 +0000
Subject: [PATCH 063/110] fix: the Quat of a null rotation vector was not a
 number

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 7983c13..e2c568d 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -54,7 +54,8 @@ public:
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-		v *= PlatformMath::sin(a) / alpha;
+		// The limit of the factor is 1/2
+		v *= alpha > 0.f ? PlatformMath::sin(a) / alpha : 0.5f;
 
 		this->x = v.x;
 		this->y = v.y;
-- 
2.43.0


From 8e546890d85928f310848cadea8c39bfc27029db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 064/110] fix: the product of two Quats applied the rotations
 in the opposite order

---
 src/korin/core/public/math/quat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index e2c568d..6b04a50 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -122,9 +122,9 @@ public:
 		// thus everything is inverted
 		
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From 07828c9955c1d4e53c3a9d68986ed9cfebe16843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 065/110] fix: the angle of a Quat whose w is rounded beyond
 one was not a number

---
 src/korin/core/public/math/quat.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 6b04a50..8c9d000 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -71,10 +71,10 @@ public:
 	 */
 	FORCE_INLINE void getAngleAndAxis(float32 & outAngle, Vec3<float32> & outAxis) const
 	{
-		float32 a = PlatformMath::acos(this->w);
-		float32 s = PlatformMath::sin(a);
+		outAngle = getAngle();
 
-		outAngle = a * 2.f;
+		float32 a = outAngle * 0.5f;
+		float32 s = PlatformMath::sin(a);
 
 		if (s == 0.f)
 		{
@@ -92,7 +92,8 @@ public:
 	 */
 	FORCE_INLINE float32 getAngle() const
 	{
-		return PlatformMath::acos(this->w) * 2.f;
+		// Rounding may exceed the domain
+		return PlatformMath::acos(PlatformMath::max(-1.f, PlatformMath::min(1.f, this->w))) * 2.f;
 	}
 
 	/**
-- 
2.43.0


From a2c245d7b9bfb123d234dae7727ae53b4e5eb34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 066/110] fix: destroying an automaton leaked what its states
 hold

---
 src/korin/core/public/regex/state.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..656fc1b 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -75,6 +75,11 @@ namespace Re
 			//
 		}
 
+		/**
+		 * States are destroyed through
+		 * pointers to this base class.
+		 */
+		virtual ~StateBase() = default;
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
-- 
2.43.0


From 2bc203d792bd649d9b1c055691f46ac03228e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 067/110] fix: repeating a group continued from whichever state
 was cloned last

---
 src/korin/core/public/regex/automaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..db54565 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -360,6 +360,10 @@ namespace Re
 					prevState->addNextState(currentState);
 				}
 			} while (visitQueue.popBack(currVisit));
+
+			// Continue from the clone of the end state,
+			// regardless of which state was visited last
+			visitedStates.find(endState, currentState);
 		}
 
 	public:
-- 
2.43.0


From ba73818fdbd2a365b0685f773a962b39e53df331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 068/110] fix: repetitions {0}, {0,n}, {0,} and {1,} of a regex
 matched something else or followed a wild pointer

---
 src/korin/core/private/regex/regex.cpp  |  2 +-
 src/korin/core/public/regex/automaton.h | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..6973403 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -355,7 +355,7 @@ namespace Re
 					if (idx + 1 == closeBracketPos)
 					{
 						// Repeat at least min times
-						builder.pushRepeat(min, 0);
+						builder.pushRepeat(min, -1);
 						idx = closeBracketPos;
 						break;
 					}
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index db54565..63f144e 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -628,8 +628,8 @@ namespace Re
 		 * 	of group repetitions (default 1)
 		 * @param maxRepeats maximum number
 		 * 	of group repetitions. If this
-		 * 	value is zero, @c minRepeats is
-		 * 	treated as `at least` lower
+		 * 	value is negative, @c minRepeats
+		 * 	is treated as `at least` lower
 		 * 	bound
 		 * @return ref to self
 		 */
@@ -638,7 +638,16 @@ namespace Re
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
+			StateT * startState = groupStart[currentGroup];
+			StateT * prevState = startState;
+
+			if (maxRepeats == 0)
+			{
+				// Group is never entered, only skipped
+				groupEnd[currentGroup] = currentState = epsilon;
+				startState->addNextState(epsilon);
+				return *this;
+			}
 
 			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
 			{
@@ -655,7 +664,7 @@ namespace Re
 				cloneCurrentGroup();
 			}
 
-			if (maxRepeats == 0)
+			if (maxRepeats < 0)
 			{
 				// Create jump circuit
 				currentState->addNextState(prevState);
@@ -664,7 +673,7 @@ namespace Re
 			{
 				CHECK(minRepeats <= maxRepeats);
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				for (int32 repeatIdx = minRepeats > 0 ? minRepeats : 1; repeatIdx < maxRepeats; ++repeatIdx)
 				{
 					// Groups here can be skipped.
 					currentState->addNextState(epsilon);
@@ -680,6 +689,12 @@ namespace Re
 			// it
 			groupEnd[currentGroup] = currentState = currentState->addNextState(epsilon);
 
+			if (minRepeats == 0)
+			{
+				// Even the first repetition can be skipped
+				startState->addNextState(epsilon);
+			}
+
 			return *this;
 		}
 
-- 
2.43.0


From 74cda2f5b806f611b319b51024e4022f455d9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 069/110] fix: repeating an optional group of a regex left the
 shortcut out of the group

---
 src/korin/core/public/regex/automaton.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 63f144e..c7f43a2 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -583,6 +583,9 @@ namespace Re
 			// Create shortcut
 			groupStart[currentGroup]->addNextState(epsilon);
 
+			// The shortcut ends the group, such that
+			// following operations address it as well
+			groupEnd[currentGroup] = epsilon;
 			return *this;
 		}
 
-- 
2.43.0


From fb64d573da9de23dbf33f7c44fc887fd7e85cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 070/110] fix: matching never ended in loops over nothing and
 revisited the same states exponentially

---
 src/korin/core/public/regex/executor.h | 34 +++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..768fba8 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/list.h"
+#include "containers/set.h"
 #include "containers/tuple.h"
 #include "./regex_types.h"
 
@@ -129,6 +131,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			visitedStates.getTree().empty();
 
 			// Reset current visit with
 			// start state and input
@@ -166,13 +169,42 @@ namespace Re
 		/// Original input
 		AlphaStringT input;
 
+		/// Enqueue visit, unless it was already
+		void pushVisit(const VisitT & visit);
+
+		/// Compares visits by state and position
+		struct FindVisit
+		{
+			FORCE_INLINE int32 operator()(const VisitT & a, const VisitT & b) const
+			{
+				const int32 cmp = ThreeWayCompare{}(a.template get<2>(), b.template get<2>());
+				return cmp != 0 ? cmp : FindStateT{}(a.template get<0>(), b.template get<0>());
+			}
+		};
+
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// Already enqueued visits
+		Set<VisitT, FindVisit> visitedStates;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
 
+	template<typename AlphaT>
+	void Executor<AlphaT>::pushVisit(const VisitT & visit)
+	{
+		// Same state at same position leads to
+		// the same result. This also terminates
+		// loops that do not consume any symbol
+		if (!visitedStates.get(visit))
+		{
+			visitedStates.set(visit);
+			visitQueue.pushBack(visit);
+		}
+	}
+
 	template<typename AlphaT>
 	bool Executor<AlphaT>::step(bool & outIsAccepted)
 	{
@@ -189,7 +221,7 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
+				pushVisit(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
 			}
 		}
 
-- 
2.43.0


From 7e9b279c22042bdf54e63a1ff8fa5d32ce57250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 071/110] fix: negated classes and lookaheads only considered
 matches reaching the end of the input

---
 src/korin/core/public/regex/state.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 656fc1b..a39d7f0 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -687,8 +687,10 @@ namespace Re
 	template<typename AlphaT>
 	bool StatePositiveLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
+		// Accepted anywhere, not only at
+		// the end of the input
 		bool isAccepted = false;
-		while (!executor.step(isAccepted));
+		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));
 
 		outNumRead = 0;
 		return isAccepted;
@@ -718,8 +720,10 @@ namespace Re
 	template<typename AlphaT>
 	bool StateNegativeLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
+		// Accepted anywhere, not only at
+		// the end of the input
 		bool isAccepted = false;
-		while (!executor.step(isAccepted));
+		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));
 
 		outNumRead = 0;
 		return !isAccepted;
-- 
2.43.0


From ef1d4e6b1bebd931a0de6f6d4bbf9b7e0b7633ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 072/110] fix: a class ending in an escaped backslash was not
 recognized, escaped bounds of ranges were read as separate symbols

---
 src/korin/core/private/regex/regex.cpp | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 6973403..cb3d530 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -217,9 +217,13 @@ namespace Re
 					// Get index of open and close brackets
 					sizet openBracketIdx = idx;
 					sizet closeBracketIdx = idx;
-					for (; (pattern[closeBracketIdx] != ']' || pattern[closeBracketIdx - 1] == '\\') && closeBracketIdx < patternLen ; ++closeBracketIdx);
+					for (; closeBracketIdx < patternLen && pattern[closeBracketIdx] != ']'; ++closeBracketIdx)
+					{
+						// Skip escaped symbol
+						if (pattern[closeBracketIdx] == '\\') ++closeBracketIdx;
+					}
 					
-					if (closeBracketIdx == patternLen)
+					if (closeBracketIdx >= patternLen)
 					{
 						// If no close bracket found, interpret
 						// this as square bracket symbol, and
@@ -268,17 +272,23 @@ namespace Re
 
 					for (;;)
 					{
-						if (pattern[idx] == '\\')
+						// Position of the symbol, and of the last
+						// symbol if this is a range. Both may be
+						// escaped
+						const sizet minIdx = pattern[idx] == '\\' ? idx + 1 : idx;
+						const sizet maxIdx = pattern[minIdx + 2] == '\\' ? minIdx + 3 : minIdx + 2;
+
+						if (pattern[minIdx + 1] == '-' && minIdx + 2 != closeBracketIdx && (minIdx == idx || !isAlpha(pattern[minIdx])))
 						{
-							// Parse escape sequence
-							idx += parseEscapeSequence(builder, pattern + idx) + 1;
+							// Range specifier
+							CHECKF(pattern[minIdx] < pattern[maxIdx], "Character range out of order");
+							builder.pushState<RangeT>(pattern[minIdx], pattern[maxIdx]);
+							idx = maxIdx + 1;
 						}
-						else if (pattern[idx + 1] == '-' && pattern[idx + 2] != ']')
+						else if (pattern[idx] == '\\')
 						{
-							// Range specifier
-							CHECKF(pattern[idx] < pattern[idx + 2], "Character range out of order");
-							builder.pushState<RangeT>(pattern[idx], pattern[idx + 2]);
-							idx += 3;
+							// Parse escape sequence
+							idx += parseEscapeSequence(builder, pattern + idx) + 1;
 						}
 						else
 						{
-- 
2.43.0


From c5b65a323861fe3e08f5b71da0f7bb8db853668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 073/110] fix: \D, \S, \W, ranges and the NUL symbol read past
 the end of the input

---
 src/korin/core/public/regex/executor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 768fba8..9e0dca9 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -217,8 +217,9 @@ namespace Re
 		AlphaStringT & currInput = currVisit.template get<1>();
 		int32 currNumRead = currVisit.template get<2>();
 
-		if (currState->enterState(currInput, numRead, currNumRead))
+		if (currState->enterState(currInput, numRead, currNumRead) && (numRead == 0 || !AlphabetTraitsT::isEOF(currInput)))
 		{
+			// Note that no state may read the terminal symbol
 			for (const StateT * nextState : currState->getNextStates())
 			{
 				pushVisit(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
-- 
2.43.0


From 68feea31dc5eb1fb23421bbeb9053a233ef61d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 074/110] fix: a quantifier with nothing to repeat followed a
 null or stale pointer

---
 src/korin/core/public/regex/automaton.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index c7f43a2..e489324 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -366,6 +366,21 @@ namespace Re
 			visitedStates.find(endState, currentState);
 		}
 
+		/**
+		 * Makes sure there is a state or
+		 * group to operate on. If there is
+		 * none yet in the current branch
+		 * (e.g. `(*a)` or `a|?`), pushes
+		 * an empty one.
+		 */
+		FORCE_INLINE void ensureCurrentGroup()
+		{
+			if (groupStart[currentGroup] == nullptr)
+			{
+				pushState<typename State::EpsilonT>();
+			}
+		}
+
 	public:
 		/**
 		 * Create a builder for the
@@ -436,6 +451,7 @@ namespace Re
 				groupStart[currentGroup] = startState;
 				groupEnd[currentGroup] = endState;
 				currentGroup += 1;
+				groupStart[currentGroup] = nullptr;
 			}
 			else ; // TODO: Error
 
@@ -489,6 +505,7 @@ namespace Re
 			currentGroup += 2;
 			groupStart[currentGroup - 1] = startState;
 			groupEnd[currentGroup - 1] = acceptedState;
+			groupStart[currentGroup] = nullptr;
 
 			// Set start state as current state
 			currentState = startState;
@@ -536,6 +553,7 @@ namespace Re
 			// of current group.
 			currentState->addNextState(groupEnd[currentGroup - 1]);
 			currentState = groupStart[currentGroup - 1];
+			groupStart[currentGroup] = nullptr;
 
 			return *this;
 		}
@@ -573,6 +591,8 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushSkip()
 		{
+			ensureCurrentGroup();
+
 			// We need an epsilon state to
 			// skip the current group
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
@@ -608,6 +628,8 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushJump()
 		{
+			ensureCurrentGroup();
+
 			// Jump from end of current group
 			// to the beginning of the group
 			groupEnd[currentGroup]->addNextState(groupStart[currentGroup]);
@@ -638,6 +660,8 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushRepeat(int32 minRepeats = 1, int32 maxRepeats = 1)
 		{
+			ensureCurrentGroup();
+
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-- 
2.43.0


From 7ab479e1798094033ec4a4b90a1fac6187775498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 075/110] fix: quantifiers of an already repeated group of a
 regex also applied to its single repetitions

---
 src/korin/core/public/regex/automaton.h | 34 ++++++++++++++++++++++---
 src/korin/core/public/regex/state.h     | 13 ++++++++++
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index e489324..526cc39 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -381,6 +381,32 @@ namespace Re
 			}
 		}
 
+		/**
+		 * Moves the content of the current
+		 * group behind a new state. Loops go
+		 * back to it, such that the start of
+		 * the group is only entered from
+		 * outside (and it is safe to skip or
+		 * to repeat the group afterwards).
+		 * 
+		 * @return ptr to created state
+		 */
+		FORCE_INLINE StateT * pushLoopStart()
+		{
+			StateT * startState = groupStart[currentGroup];
+			StateT * loopState = automaton.template pushState<typename State::EpsilonT>();
+
+			for (StateT * nextState : startState->getNextStates())
+			{
+				loopState->addNextState(nextState);
+			}
+
+			startState->removeNextStates();
+			startState->addNextState(loopState);
+
+			return loopState;
+		}
+
 	public:
 		/**
 		 * Create a builder for the
@@ -632,7 +658,7 @@ namespace Re
 
 			// Jump from end of current group
 			// to the beginning of the group
-			groupEnd[currentGroup]->addNextState(groupStart[currentGroup]);
+			groupEnd[currentGroup]->addNextState(pushLoopStart());
 
 			return *this;
 		}
@@ -666,12 +692,12 @@ namespace Re
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
 			StateT * startState = groupStart[currentGroup];
-			StateT * prevState = startState;
-
+			StateT * prevState = nullptr;
 			if (maxRepeats == 0)
 			{
 				// Group is never entered, only skipped
 				groupEnd[currentGroup] = currentState = epsilon;
+				startState->removeNextStates();
 				startState->addNextState(epsilon);
 				return *this;
 			}
@@ -694,7 +720,7 @@ namespace Re
 			if (maxRepeats < 0)
 			{
 				// Create jump circuit
-				currentState->addNextState(prevState);
+				currentState->addNextState(prevState ? prevState : pushLoopStart());
 			}
 			else
 			{
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index a39d7f0..65f516f 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -121,6 +121,19 @@ namespace Re
 			return other;
 		}
 
+		/**
+		 * Unlink all next states.
+		 */
+		FORCE_INLINE void removeNextStates()
+		{
+			for (StateBase * nextState : nextStates)
+			{
+				nextState->prevStates.remove(this);
+			}
+
+			nextStates.getTree().empty();
+		}
+
 		/**
 		 * Merge this state into the next
 		 * state. The state must have
-- 
2.43.0


From 2a256fe054642f41b39bfdfa4deb472271e271a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 076/110] fix: resetting an executor to another input started
 with the previous one

---
 src/korin/core/public/regex/executor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 9e0dca9..4dc3fd1 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -140,10 +140,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 05b832e37f991da911c1dc092f9d3f6d3fea7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 077/110] fix: an unbalanced closing parenthesis ended the
 regex and accessed groups out of bounds

---
 src/korin/core/private/regex/regex.cpp  | 12 +++++++++++-
 src/korin/core/public/regex/automaton.h | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index cb3d530..82faecf 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -205,7 +205,17 @@ namespace Re
 
 				case ')':
 				{
-					builder.endGroup();
+					if (builder.isInsideGroup())
+					{
+						builder.endGroup();
+					}
+					else
+					{
+						// If no group is open, interpret
+						// this as parenthesis symbol
+						// TODO: Throw warning
+						builder.pushState<SymbolT>(')');
+					}
 					break;
 				}
 
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 526cc39..07b4bdd 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -484,6 +484,16 @@ namespace Re
 			return *this;
 		}
 
+		/**
+		 * Returns true if a group was begun
+		 * and not ended (i.e. there is an open
+		 * parenthesis in regex syntax).
+		 */
+		FORCE_INLINE bool isInsideGroup() const
+		{
+			return currentGroup > 1;
+		}
+
 		/**
 		 * Ends innermost group (i.e. closes
 		 * innermost parenthesis in regex
-- 
2.43.0


From bae533c279ea2f9261bf3cc7065f3bc41e559574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:42 +0000
Subject: [PATCH 078/110] fix: deeply nested groups of a regex were ignored or
 written out of bounds

---
 src/korin/core/public/regex/automaton.h | 39 ++++++++++---------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 07b4bdd..d2eead9 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/array.h"
 #include "containers/list.h"
 #include "containers/pair.h"
 #include "containers/set.h"
@@ -418,11 +419,11 @@ namespace Re
 		FORCE_INLINE explicit AutomatonBuilder(AutomatonT & inAutomaton)
 			: automaton{inAutomaton}
 			, currentState{inAutomaton.startState}
-			, groupStart{inAutomaton.startState}
-			, groupEnd{inAutomaton.acceptedState}
 			, currentGroup{1}
 		{
-			//
+			groupStart(0) = inAutomaton.startState;
+			groupEnd(0) = inAutomaton.acceptedState;
+			groupStart(1) = nullptr;
 		}
 
 		/**
@@ -450,8 +451,8 @@ namespace Re
 			currentState = state;
 
 			// Create temporary groups
-			groupStart[currentGroup] = epsilon;
-			groupEnd[currentGroup] = state;
+			groupStart(currentGroup) = epsilon;
+			groupEnd(currentGroup) = state;
 
 			return *this;
 		}
@@ -472,14 +473,10 @@ namespace Re
 			currentState->addNextState(startState);
 			currentState = startState;
 
-			if (currentGroup < maxNumGroups - 1)
-			{
-				groupStart[currentGroup] = startState;
-				groupEnd[currentGroup] = endState;
-				currentGroup += 1;
-				groupStart[currentGroup] = nullptr;
-			}
-			else ; // TODO: Error
+			groupStart(currentGroup) = startState;
+			groupEnd(currentGroup) = endState;
+			currentGroup += 1;
+			groupStart(currentGroup) = nullptr;
 
 			return *this;
 		}
@@ -537,11 +534,10 @@ namespace Re
 			pushState<MacroAnyT>(startState, acceptedState);
 
 			// Create macro frame
-			// TODO: Check max groups
 			currentGroup += 2;
-			groupStart[currentGroup - 1] = startState;
-			groupEnd[currentGroup - 1] = acceptedState;
-			groupStart[currentGroup] = nullptr;
+			groupStart(currentGroup - 1) = startState;
+			groupEnd(currentGroup - 1) = acceptedState;
+			groupStart(currentGroup) = nullptr;
 
 			// Set start state as current state
 			currentState = startState;
@@ -762,9 +758,6 @@ namespace Re
 		}
 
 	protected:
-		/// Max number of groups
-		static constexpr sizet maxNumGroups = 127;
-
 		/// Ref to building automaton
 		AutomatonT & automaton;
 
@@ -773,12 +766,12 @@ namespace Re
 
 		/// Groups buffers
 		/// @{
-		StateT * groupStart[maxNumGroups];
-		StateT * groupEnd[maxNumGroups];
+		Array<StateT*> groupStart;
+		Array<StateT*> groupEnd;
 		/// @}
 
 		/// Current active group
-		int8 currentGroup;
+		int32 currentGroup;
 	};
 
 	/**
-- 
2.43.0


From 5efbee25dee040d042a78bc0c00f7671040daea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 079/110] fix: copies of an automaton or regex destroyed the
 states of the original

---
 src/korin/core/public/regex/automaton.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index d2eead9..08fe3fa 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -116,6 +116,15 @@ namespace Re
 		 */
 		Automaton();
 
+		/**
+		 * An automaton owns its states
+		 * and cannot be copied.
+		 * @{
+		 */
+		Automaton(const Automaton&) = delete;
+		Automaton & operator=(const Automaton&) = delete;
+		/** @} */
+
 		/**
 		 * Destroy automaton. Deallocates
 		 * all states.
-- 
2.43.0


From b3c83bb6fb95fe940cb9c05635ae58ccabb997d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 080/110] fix: an invalid quantifier of a regex lost its
 opening bracket

---
 src/korin/core/private/regex/regex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 82faecf..fda6327 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -368,6 +368,7 @@ namespace Re
 						// Next character is neither the
 						// closing bracket, nor comma
 						CHECKF(false, "When parsing regex '%s' at pos %llu: failed to parse quantifier '%.*s' (to remove this warning escape the bracket '\\\\{').", pattern, openBracketPos, static_cast<int32>(closeBracketPos - openBracketPos) + 1, pattern + openBracketPos);
+						builder.pushState<SymbolT>('{');
 						idx = openBracketPos;
 						break;
 					}
@@ -390,6 +391,7 @@ namespace Re
 					{
 						// Failed to parse quantifier
 						CHECKF(false, "When parsing regex '%s' at pos %llu: failed to parse quantifier '%.*s' (to remove this warning escape the bracket '\\\\{').", pattern, openBracketPos, static_cast<int32>(closeBracketPos - openBracketPos) + 1, pattern + openBracketPos);
+						builder.pushState<SymbolT>('{');
 						idx = openBracketPos;
 						break;
 					}
-- 
2.43.0


From 6999a685465ab3df3bedd7d932b939c7241b53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 081/110] fix: states created by different threads could share
 an id

---
 src/korin/core/public/regex/state.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 65f516f..2bea5c5 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "templates/atomic.h"
 #include "templates/function.h"
 #include "containers/list.h"
 #include "containers/tuple.h"
@@ -60,7 +61,7 @@ namespace Re
 			, prevStates{}
 		{
 			// Generate unique id
-			static uint64 counter = 0;
+			static Atomic<uint64> counter{0};
 			id = ++counter;
 		}
 
@@ -80,6 +81,7 @@ namespace Re
 		 * pointers to this base class.
 		 */
 		virtual ~StateBase() = default;
+
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
-- 
2.43.0


From 53dfa2548b2ca907015a56a3de7c8de631538c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 082/110] fix: atomic pointers moved by bytes but returned
 values moved by elements

---
 .../core/public/unix/unix_platform_atomics.h     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..2575325 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -36,6 +36,22 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	/**
+	 * Pointers are moved by whole elements,
+	 * whereas the builtins move by bytes.
+	 * @{
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_add(value, (intp)amount * (intp)sizeof(T));
+	}
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_sub(value, (intp)amount * (intp)sizeof(T));
+	}
+	/** @} */
 	/**
 	 * 
 	 */
-- 
2.43.0


From a01d411fad1cecadd99d21be9501b47a80df50c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 083/110] fix: assigning to an atomic returned a value stored
 by another thread

---
 src/korin/core/public/templates/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
-- 
2.43.0


From 07f18b31dae3f6be184d2adab093a5ac09c73517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 084/110] fix: copies of a pool freed and handed out the memory
 of the original

---
 src/korin/core/public/hal/malloc_pool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/hal/malloc_pool.h b/src/korin/core/public/hal/malloc_pool.h
index 5d0078f..46608f8 100644
--- a/src/korin/core/public/hal/malloc_pool.h
+++ b/src/korin/core/public/hal/malloc_pool.h
@@ -80,6 +80,9 @@ public:
 	 */
 	MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlignment = DEFAULT_ALIGNMENT, void * inBuffer = nullptr);
 
+	/// Owns its buffer and the links in it, cannot be copied
+	MemoryPool(const MemoryPool&) = delete;
+
 	/**
 	 * Destructor, deallocates own buffer
 	 */
@@ -373,6 +376,9 @@ public:
 	 */
 	MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlignment = DEFAULT_ALIGNMENT, uint32 initialNumPools = 1);
 
+	/// Owns its pools, cannot be copied
+	MallocPooled(const MallocPooled&) = delete;
+
 	/**
 	 * Default constructor
 	 */
-- 
2.43.0


From b72bd3ea60886bf2508c85a320cbd85710e8a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 085/110] fix: the default comparison of pointers to constants
 did not compile

---
 src/korin/core/public/templates/functional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/functional.h b/src/korin/core/public/templates/functional.h
index a887d1c..27b0811 100644
--- a/src/korin/core/public/templates/functional.h
+++ b/src/korin/core/public/templates/functional.h
@@ -41,6 +41,6 @@ struct ThreeWayCompare
 	template<typename A, typename B>
 	FORCE_INLINE int32 operator()(const A * a, const B * b) const
 	{
-		return *this(forward<A>(*a), forward<B>(*b));
+		return (*this)(*a, *b);
 	}
 };
\ No newline at end of file
-- 
2.43.0


From bc63dd7708a15533185ba0299ac96555614749fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 086/110] fix: the SIMD vector loaded its components in reverse
 order

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 2d2380c..248d784 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -31,7 +31,7 @@ struct Vector4<float32>
 
 	static FORCE_INLINE Type load(T a, T b, T c, T d)
 	{
-		return _mm_set_ps(a, b, c, d);
+		return _mm_setr_ps(a, b, c, d);
 	}
 
 	static FORCE_INLINE Type load(T s)
-- 
2.43.0


From 55b8d5a2d62dff08ead4d5c00aec8ec4fd885bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 087/110] fix: the masked SIMD store needed AVX-512 and did not
 compile with the flags of the project

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 248d784..7da4430 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -60,7 +60,7 @@ struct Vector4<float32>
 	template<uint8 mask = 0xf>
 	static FORCE_INLINE void store(T * ptr, Type v)
 	{
-		_mm_mask_store_ps(ptr, mask, v);
+		_mm_maskstore_ps(ptr, _mm_setr_epi32(-(mask & 1), -(mask >> 1 & 1), -(mask >> 2 & 1), -(mask >> 3 & 1)), v);
 	}
 
 	/**
-- 
2.43.0


From f84f333a88b44482b1ceb253168baa765a4074f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 088/110] fix: counting the nodes of a subtree did not compile
 outside debug builds

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 4672d42..0546f98 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
+	static uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From afef825d7f75fa01107c7d3a6ce1a2e916a0ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 089/110] fix: integer powers did not compile outside debug
 builds

---
 src/korin/core/public/generic/generic_platform_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_math.h b/src/korin/core/public/generic/generic_platform_math.h
index 86d18e8..b1a6ddd 100644
--- a/src/korin/core/public/generic/generic_platform_math.h
+++ b/src/korin/core/public/generic/generic_platform_math.h
@@ -31,7 +31,7 @@ struct GenericPlatformMath
 	 * Integer power
 	 */
 	template<typename T, typename U>
-	static FORCE_INLINE typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
+	static typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
 	{
 		if (y == 0) return T{1};
 		T z = pow(x, y >> 1);
-- 
2.43.0


From ee89ed64cdc4c46fcc5c7842b9aafd7632251833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 090/110] fix: headers using the check macros did not compile
 on their own

---
 src/korin/core/public/misc/assert.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index dd4fbc0..2a07ff7 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stdio.h>
+
 /**
  * CHECK prints a warning if condition evaluates
  * to false. CHECKF prints a formatted warning
-- 
2.43.0


From 2861f7fbfeed960a1253dba65feb9d92635f895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 091/110] fix: checks used the text of their condition as a
 format, and the assertion macros did not expand

---
 src/korin/core/public/misc/assert.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index 2a07ff7..6efd9c3 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -19,6 +19,6 @@
 		}
 #endif
 
-#define CHECK(expr) CHECKF(expr, #expr)
-#define ASSERTF(expr, format, ...) CHECKF(expr, format, __VA_ARGS_)
-#define ASSERT(expr) ASSERT(expr, #expr)
+#define CHECK(expr) CHECKF(expr, "%s", #expr)
+#define ASSERTF(expr, format, ...) CHECKF(expr, format, ##__VA_ARGS__)
+#define ASSERT(expr) CHECK(expr)
-- 
2.43.0


From e0caa5ae774358762511272b3238001197438b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 092/110] fix: looking for the root, first and last node of a
 tree did not compile without optimisation outside debug builds

---
 src/korin/core/public/containers/tree.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 0546f98..428ea6c 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -91,12 +91,12 @@ struct BinaryNode
 	 * Returns root of tree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getRoot()
+	BinaryNode * getRoot()
 	{
 		return parent ? parent->getRoot() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getRoot() const
+	const BinaryNode * getRoot() const
 	{
 		return parent ? parent->getRoot() : this;
 	}
@@ -106,12 +106,12 @@ struct BinaryNode
 	 * Returns leftmost node of subtree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getMin()
+	BinaryNode * getMin()
 	{
 		return left ? left->getMin() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getMin() const
+	const BinaryNode * getMin() const
 	{
 		return left ? left->getMin() : this;
 	}
@@ -121,12 +121,12 @@ struct BinaryNode
 	 * Returns rightmost node of subtree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getMax()
+	BinaryNode * getMax()
 	{
 		return right ? right->getMax() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getMax() const
+	const BinaryNode * getMax() const
 	{
 		return right ? right->getMax() : this;
 	}
-- 
2.43.0


From adb440e3ec97562a34fcf32c95f678cc28d8c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 093/110] fix: the global allocator was destroyed before global
 objects that still use it

---
 src/korin/core/private/hal/memory_base.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/memory_base.cpp b/src/korin/core/private/hal/memory_base.cpp
index 5270d93..d45d84d 100644
--- a/src/korin/core/private/hal/memory_base.cpp
+++ b/src/korin/core/private/hal/memory_base.cpp
@@ -2,5 +2,13 @@
 #include "hal/malloc_ansi.h"
 
 // TODO: Replace with initialization function
-static MallocAnsi gMallocAnsi;
-MallocBase * gMalloc = &gMallocAnsi;
\ No newline at end of file
+// Initialized statically and never destroyed, global
+// objects may need it before and after main
+static union ImmortalMalloc
+{
+	constexpr ImmortalMalloc() : malloc{} {}
+	~ImmortalMalloc() {}
+
+	MallocAnsi malloc;
+} gMallocAnsi;
+MallocBase * gMalloc = &gMallocAnsi.malloc;
\ No newline at end of file
-- 
2.43.0


From 51cce875727fe4230ab6e9f1e51fc21aa2bcdc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 094/110] fix: compute binned bucket block sizes with the width
 of the configuration

The 32-bit block size wrapped for buckets of 4 GB and above, and the loop
computed one block size past the last bucket: a configuration reaching
1 GB with an increment of 8 divided by zero in the constructor.
---
 src/korin/core/private/hal/malloc_binned.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9585164..212af18 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -12,12 +12,11 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 {
 	CHECK(numBuckets != 0);
 
-	for (
-		uint32 i = 0, blockSize = bucketInfo.allocUnitMinSize, numBlocks = bucketInfo.poolSize / blockSize;
-		i < numBuckets;
-		++i, numBlocks = bucketInfo.poolSize / (blockSize *= bucketInfo.allocUnitIncrement)
-	)
+	sizet blockSize = bucketInfo.allocUnitMinSize;
+	for (uint32 i = 0; i < numBuckets; ++i, blockSize *= bucketInfo.allocUnitIncrement)
 	{
+		const uint32 numBlocks = bucketInfo.poolSize / blockSize;
+
 		// Create bucket
 		buckets.add(new MallocPooled{PlatformMath::max(numBlocks, 1u), blockSize, poolAlign, 1});
 	}
-- 
2.43.0


From 3c96f33e4345d1b7133c6b79c38a1b740df7ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 095/110] fix: the current state of a mutable executor could
 not be asked for

---
 src/korin/core/public/regex/executor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 4dc3fd1..f364f17 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -66,7 +66,7 @@ namespace Re
 			return currVisit.template get<0>();
 		}
 
-		FORCE_INLINE StateT * getCurrentState()
+		FORCE_INLINE const StateT * getCurrentState()
 		{
 			return currVisit.template get<0>();
 		}
-- 
2.43.0


From 5145b4f53850037911e858be148b210df9cc7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 096/110] fix: an optional could not be copied from a constant
 rvalue

---
 src/korin/core/public/templates/optional.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index ef3c9ee..47fcab5 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -31,6 +31,12 @@ struct Optional
 		: Optional{const_cast<const Optional&>(other)}
 	{
 		
+	}
+
+	constexpr FORCE_INLINE Optional(const Optional && other)
+		: Optional{static_cast<const Optional&>(other)}
+	{
+		
 	}
 	/** @} */
 
-- 
2.43.0


From 85672b503bce76384c186a8ec07f9de2e36ca6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 097/110] fix: a static array could not be copied from a
 constant rvalue

---
 src/korin/core/public/templates/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 6ad9ad4..caf3f62 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -69,7 +69,7 @@ struct StaticArray
 	 * @param items item to insert in
 	 * 	array
 	 */
-	template<typename ...ItemPackT>
+	template<typename ...ItemPackT, typename = EnableIfT<sizeof...(ItemPackT) != 1 || !(IsSameType<typename DecayType<ItemPackT>::Type, StaticArray>::value && ...)>>
 	constexpr FORCE_INLINE StaticArray(ItemPackT && ...items)
 		: buffer{forward<ItemPackT>(items)...}
 		, count{inCount}
-- 
2.43.0


From a67a194d8f33b0e252e532925e6ed88854e8717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 098/110] fix: sorting a sorted range used stack proportional
 to its length

---
 src/korin/core/public/algorithm/sort.h | 127 ++++++++++++++++---------
 1 file changed, 81 insertions(+), 46 deletions(-)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 54ef229..917e05e 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -55,31 +55,48 @@ struct Sort
 	template<typename It, typename CompareT>
 	static void quicksort(It begin, It end, CompareT && cmp/* = ThreeWayCompare() */)
 	{
-		It i = begin, j = begin, p = begin;
-
-		if (i == end || ++i == end)
-			// Single element
-			return;
-		else if (++i == end)
+		for (;;)
 		{
-			// Two elements
-			if (cmp(*begin, *(++j)) > 0) swap(*begin, *j);
-			return;
-		}
+			It i = begin, j = begin, p = begin;
+
+			if (i == end || ++i == end)
+				// Single element
+				return;
+			else if (++i == end)
+			{
+				// Two elements
+				if (cmp(*begin, *(++j)) > 0) swap(*begin, *j);
+				return;
+			}
 
-		// We need a third iterator because
-		// of the assumption that we cannot
-		// decrement an iterator (i.e. --j)
-		i = j = begin;
-		for (++i, ++j; i != end; ++i)
-			if (cmp(*i, *begin) < 0) swap(*i, *(p = j)), ++j;
-		
-		// Swap pivot
-		swap(*begin, *p);
+			// Number of elements moved on the
+			// left and kept on the right
+			uint64 numLeft = 0, numRight = 0;
 
-		// Recursive calls
-		quicksort(begin, p, forward<CompareT>(cmp));
-		quicksort(j, end, forward<CompareT>(cmp));
+			// We need a third iterator because
+			// of the assumption that we cannot
+			// decrement an iterator (i.e. --j)
+			i = j = begin;
+			for (++i, ++j; i != end; ++i)
+				if (cmp(*i, *begin) < 0) swap(*i, *(p = j)), ++j, ++numLeft;
+				else ++numRight;
+			
+			// Swap pivot
+			swap(*begin, *p);
+
+			// Recur on the smaller side only,
+			// or sorted ranges use up the stack
+			if (numLeft < numRight)
+			{
+				quicksort(begin, p, forward<CompareT>(cmp));
+				begin = j;
+			}
+			else
+			{
+				quicksort(j, end, forward<CompareT>(cmp));
+				end = p;
+			}
+		}
 	}
 
 	/**
@@ -99,32 +116,50 @@ struct Sort
 	template<typename ItT, typename ItU, typename CompareT>
 	static void argquicksort(ItT begin, ItT end, ItU args, CompareT && cmp/*  = ThreeWayCompare() */)
 	{
-		ItT i = begin, j = begin, k = begin;
-		ItU x = args, y = args, z = args;
-
-		if (i == end || ++i == end)
-			// Single element
-			return;
-		else if (++i == end)
+		for (;;)
 		{
-			// Two elements
-			if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *(++y));
-			return;
-		}
+			ItT i = begin, j = begin, k = begin;
+			ItU x = args, y = args, z = args;
+
+			if (i == end || ++i == end)
+				// Single element
+				return;
+			else if (++i == end)
+			{
+				// Two elements
+				if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *(++y));
+				return;
+			}
 
-		// We need a third iterator because
-		// of the assumption that we cannot
-		// decrement an iterator (i.e. --j)
-		i = j = begin;
-		for (++i, ++j, ++x, ++y; i != end; ++i, ++x)
-			if (cmp(*i, *begin) < 0) swap(*i, *(k = j)), swap(*x, *(z = y)), ++j, ++y;
-		
-		// Swap pivot
-		swap(*begin, *k);
-		swap(*args, *z);
+			// Number of elements moved on the
+			// left and kept on the right
+			uint64 numLeft = 0, numRight = 0;
 
-		// Recursive calls
-		argquicksort(begin, k, args, forward<CompareT>(cmp));
-		argquicksort(j, end, y, forward<CompareT>(cmp));
+			// We need a third iterator because
+			// of the assumption that we cannot
+			// decrement an iterator (i.e. --j)
+			i = j = begin;
+			for (++i, ++j, ++x, ++y; i != end; ++i, ++x)
+				if (cmp(*i, *begin) < 0) swap(*i, *(k = j)), swap(*x, *(z = y)), ++j, ++y, ++numLeft;
+				else ++numRight;
+			
+			// Swap pivot
+			swap(*begin, *k);
+			swap(*args, *z);
+
+			// Recur on the smaller side only,
+			// or sorted ranges use up the stack
+			if (numLeft < numRight)
+			{
+				argquicksort(begin, k, args, forward<CompareT>(cmp));
+				begin = j;
+				args = y;
+			}
+			else
+			{
+				argquicksort(j, end, y, forward<CompareT>(cmp));
+				end = k;
+			}
+		}
 	}
 };
\ No newline at end of file
-- 
2.43.0


From 2bac0ab4d9236c1f651231efe8e5d3efdf3959b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 099/110] fix: decrementing an array iterator by an amount
 returned a copy of it

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 42c9f87..a10071d 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -168,7 +168,7 @@ struct ArrayIteratorBase : public IteratorTraitsT
 	 * @param n decrement amount
 	 * @return ref to self
 	 */
-	FORCE_INLINE ArrayIteratorBase operator-=(uint64 n)
+	FORCE_INLINE ArrayIteratorBase & operator-=(uint64 n)
 	{
 		idx -= n;
 		return *this;
-- 
2.43.0


From b4ca96e5cb8320df8aa2ea5e34c61f3305ac9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 100/110] fix: the debugger printers could only be loaded along
 with an object file

---
 extras/gdb/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index c265a77..9cf3b4a 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -506,6 +506,9 @@ def register_korin_printer(obj: gdb.Objfile) -> None:
 
 	global korin_printer
 
+	# Not loaded on behalf of an object file, register for all
+	if obj is None: obj = gdb
+
 	obj.pretty_printers.append(korin_printer)
 
 build_korin_printer()
-- 
2.43.0


From dca565e0fdbad66a343b97afb79abf61c6ec4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 101/110] fix: the debugger did not show what an rvalue
 reference refers to

---
 extras/gdb/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index 9cf3b4a..d8bbc26 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -447,7 +447,7 @@ class Printer(object):
 	def get_basic_type(type: gdb.Type):
 		"""  """
 
-		if type.code == gdb.TYPE_CODE_REF:
+		if type.code in (gdb.TYPE_CODE_REF, gdb.TYPE_CODE_RVALUE_REF):
 			# Dereference type
 			type = type.target()
 		
@@ -467,7 +467,7 @@ class Printer(object):
 		match = self.lookup_regex.match(typename)
 		if match is None: return None
 
-		if value.type.code == gdb.TYPE_CODE_REF:
+		if value.type.code in (gdb.TYPE_CODE_REF, gdb.TYPE_CODE_RVALUE_REF):
 			if hasattr(gdb.Value, 'referenced_value'):
 				value = value.referenced_value()
 
-- 
2.43.0


From 96ad768d985f0ff99ef23a666bbc11da0dc819d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 102/110] fix: the debugger failed to show strings that are not
 valid UTF-8

---
 extras/gdb/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index d8bbc26..b728408 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -187,7 +187,8 @@ class StringPrinter:
 		if self.array['buffer'] == 0:
 			return ''
 		else:
-			return self.array['buffer'].string()
+			# Not all strings can be decoded. Last character is the terminator
+			return self.array['buffer'].lazy_string(length=max(int(self.array['count']) - 1, 0))
 
 class ListPrinter:
 	"""  """
-- 
2.43.0


From 356c694acdbd8a9f7a73ae9c389e730acbda63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 103/110] fix: the debugger quoted the string of an optional
 twice

---
 extras/gdb/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index b728408..68e28f8 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -93,11 +93,11 @@ class OptionalPrinter:
 		else:
 			return None
 	
-	def to_string(self) -> str:
+	def to_string(self):
 		"""  """
 
 		if self.has_value:
-			return str(self.value)
+			return self.value
 		else:
 			return '(nil)'
 
-- 
2.43.0


From 978692d037c51d9a71147f99ca516f245edae041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 104/110] fix: the debugger failed to show quaternions that are
 not exactly of unit size

---
 extras/gdb/types.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index 68e28f8..e1b9c8e 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -393,18 +393,10 @@ class QuatPrinter:
 		self._typename = typename
 		self._value = value
 		
-		try:
-			a = math.acos(value['w'])
-			s = 1.0 / math.sin(a)
-			self.angle = a * 2.0
-			self.axis = [
-				value['x'] * s,
-				value['y'] * s,
-				value['z'] * s
-			]
-		except ZeroDivisionError:
-			self.angle = 0.0
-			self.axis = [0.0, 0.0, 0.0]
+		x, y, z, w = (float(value[name]) for name in 'xyzw')
+		s = math.sqrt(x * x + y * y + z * z)
+		self.angle = 2.0 * math.atan2(s, w)
+		self.axis = [x / s, y / s, z / s] if s > 0.0 else [0.0, 0.0, 0.0]
 	
 	def to_string(self) -> str:
 		"""  """
-- 
2.43.0


From 4d1ea66580ecb350d8a8f8adf8fbc60d281f4621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 105/110] fix: the check macros could not be used unless
 another header came first

---
 src/korin/core/public/misc/assert.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index 6efd9c3..67a7a4d 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "core_types.h"
 #include <stdio.h>
 
 /**
-- 
2.43.0


From d1973109269217d491beac3765957d5b699a63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 106/110] fix: pairs could not be used without a comparison
 unless another header came first

---
 src/korin/core/public/containers/pair.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index 82354cf..bdd22f4 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -2,6 +2,7 @@
 
 #include "core_types.h"
 #include "templates/utility.h"
+#include "./containers_types.h"
 
 /**
  * A struct with two elements (conceptually
-- 
2.43.0


From 986b042f38b55fec0c1b6470128a7cd0aa8b8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 107/110] fix: optionals could not be assigned unless another
 header came first

---
 src/korin/core/public/templates/optional.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 47fcab5..53b1b74 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -2,6 +2,7 @@
 
 #include "core_types.h"
 #include "misc/assert.h"
+#include "hal/platform_crt.h"
 #include "./utility.h"
 
 /**
-- 
2.43.0


From efb24947bab84ed4251627d309f6e32cf707c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 108/110] fix: moving into an array, list or tree what one of
 its own elements holds read it after destroying it

---
 src/korin/core/public/containers/array.h | 16 ++++++++++------
 src/korin/core/public/containers/list.h  | 17 ++++++++++-------
 src/korin/core/public/containers/tree.h  | 14 +++++++++-----
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index a10071d..758391d 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -476,16 +476,20 @@ public:
 	{
 		if (this == &other) return *this;
 
+		// Take from other before destroying, as
+		// other could belong to one of the elements
+		Array moved{move(other)};
+
 		// Destroy first
 		destroy();
 		
-		malloc = move(other.malloc);
-		buffer = other.buffer;
-		capacity = other.capacity;
-		count = other.count;
+		malloc = move(moved.malloc);
+		buffer = moved.buffer;
+		capacity = moved.capacity;
+		count = moved.count;
 
-		other.buffer = nullptr;
-		other.capacity = other.count = 0;
+		moved.buffer = nullptr;
+		moved.capacity = moved.count = 0;
 
 		return *this;
 	}
diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 42b623e..8df60a6 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -342,17 +342,20 @@ public:
 	{
 		if (this == &other) return *this;
 
+		// Take from other before removing, as
+		// other could belong to one of the elements
+		List moved{move(other)};
+
 		// Remove all
 		empty();
 
-		// Take from other
-		malloc = move(other.malloc);
-		head = other.head;
-		tail = other.tail;
-		length = other.length;
+		malloc = move(moved.malloc);
+		head = moved.head;
+		tail = moved.tail;
+		length = moved.length;
 
-		other.head = other.tail = nullptr;
-		other.length = 0;
+		moved.head = moved.tail = nullptr;
+		moved.length = 0;
 
 		return *this;
 	}
diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 428ea6c..6b9519b 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1155,15 +1155,19 @@ public:
 	{
 		if (this == &other) return *this;
 
+		// Take from other before destroying, as
+		// other could belong to one of the nodes
+		BinaryTree moved{move(other)};
+
 		// Destroy subtree
 		if (root) destroySubtree(root);
 
-		malloc = move(other.malloc);
-		root = other.root;
-		numNodes = other.numNodes;
+		malloc = move(moved.malloc);
+		root = moved.root;
+		numNodes = moved.numNodes;
 
-		other.root = nullptr;
-		other.numNodes = 0ull;
+		moved.root = nullptr;
+		moved.numNodes = 0ull;
 
 		return *this;
 	}
-- 
2.43.0


From 49b5156a0fe38065697a104c37556d5d5613cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 109/110] fix: elements that can only be moved were taken for
 trivially copyable, so arrays of them copied their bytes and destroyed them
 twice

---
 src/korin/core/public/containers/array.h                | 5 ++---
 src/korin/core/public/generic/generic_platform_memory.h | 1 +
 src/korin/core/public/templates/types.h                 | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 758391d..a3f9496 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -315,11 +315,10 @@ protected:
 			// Allocate new memory
 			T * inBuffer = malloc.alloc(capacity);
 
-			// Copy elements and free old buffer
+			// Move elements and free old buffer
 			if (buffer)
 			{
-				Memory::constructCopyElements(inBuffer, buffer, count);
-				Memory::destroyElements(buffer, buffer + count);
+				Memory::relocateElementsUp(inBuffer, buffer, count);
 				malloc.free(buffer);
 			}
 
diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index a4235ed..b9472a7 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -172,6 +172,7 @@ struct GenericPlatformMemory
 	 * is unconstructed.
 	 * 
 	 * @param dst destination, not before src
+	 * 	unless they do not overlap
 	 * @param src source buffer
 	 * @param n number of elements
 	 * @{
diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 6c8cb59..62e118c 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -191,7 +191,7 @@ struct IsTriviallyDestructible
 template<typename T>
 struct IsTriviallyCopyable
 {
-	enum {value = __has_trivial_copy(T)};
+	enum {value = __is_trivially_constructible(T, const T &)};
 };
 
 /**
@@ -201,7 +201,7 @@ struct IsTriviallyCopyable
 template<typename T>
 struct IsTriviallyAssignable
 {
-	enum {value = __has_trivial_assign(T)};
+	enum {value = __is_trivially_assignable(T &, const T &)};
 };
 
 /**
-- 
2.43.0


From 3e3627337aa7f0701a3221a10b31bdc24a40bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 110/110] fix: elements that are trivial to copy but not to
 assign were assigned bytewise

---
 src/korin/core/public/generic/generic_platform_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b9472a7..21143e4 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -110,7 +110,7 @@ struct GenericPlatformMemory
 	 * @{
 	 */
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyAssignable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
 		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
@@ -118,7 +118,7 @@ struct GenericPlatformMemory
 	}
 
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyAssignable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(TT));
 	}
@@ -135,7 +135,7 @@ struct GenericPlatformMemory
 	 * @{
 	 */
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyAssignable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
 	{
 		if (LIKELY(dst < src))
 		{
@@ -158,7 +158,7 @@ struct GenericPlatformMemory
 	}
 
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyAssignable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
 	{
 		memmov(dst, src, n * sizeof(TT));
 	}
-- 
2.43.0

