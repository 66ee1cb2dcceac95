From e8350948f1e05d40f8b1e23a7611756a35aa0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 01/43] fix: List copy assignment keeps the length of the
 longer list

---
 src/korin/core/public/containers/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..67f1d7f 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -318,6 +318,7 @@ public:
 				LinkT * link = it;
 				it = it->next;
 				destroyLink(link);
+				--length;
 			}
 
 			// Push remaining objects
-- 
2.43.0


From 5320155baf015bdd33b2827d5583ade6d38d060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 02/43] fix: List move assignment returns no value

---
 src/korin/core/public/containers/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 67f1d7f..3f0a3ad 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -351,6 +351,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 75b7b56fc118f1e810afe92982dd6044dda2cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 03/43] fix: List variadic push moves from lvalue arguments

---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 3f0a3ad..226a0b9 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -467,7 +467,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -515,7 +515,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From c4b544636bc96dd4a798ba987851a1c9e5820d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 04/43] fix: List::remove leaves neighbours of head and tail
 dangling

---
 src/korin/core/public/containers/list.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 226a0b9..3c736f1 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -524,19 +524,15 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
-		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+
+		// Unlink from neighbours
+		if (prev) prev->next = next;
+		if (next) next->prev = prev;
+
+		if (link == head) head = next;
+		if (link == tail) tail = prev;
 
 		--length;
 
-- 
2.43.0


From 67f792a39ecfce780ed8c6c9ee2c640903bd6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 05/43] fix: moved-from containers lose their allocator

---
 src/korin/core/public/hal/malloc_object.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_object.h b/src/korin/core/public/hal/malloc_object.h
index 3caf770..09449ae 100644
--- a/src/korin/core/public/hal/malloc_object.h
+++ b/src/korin/core/public/hal/malloc_object.h
@@ -38,12 +38,13 @@ public:
 	}
 
 	/**
-	 * Move constructor.
+	 * Move constructor. The other object
+	 * keeps using the same allocator.
 	 */
 	FORCE_INLINE MallocObject(MallocObject && other)
 		: malloc{other.malloc}
 	{
-		other.malloc = nullptr;
+		//
 	}
 
 	/**
@@ -52,8 +53,6 @@ public:
 	FORCE_INLINE MallocObject & operator=(MallocObject && other)
 	{
 		malloc = other.malloc;
-		other.malloc = nullptr;
-
 		return *this;
 	}
 
-- 
2.43.0


From 16fcc9f69cdb7322dd3c3c85dc37c510675b4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 06/43] fix: pointer atomics add bytes instead of elements

---
 .../core/public/unix/unix_platform_atomics.h  | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..c535125 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -27,6 +27,16 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_add(value, amount);
 	}
 
+	/**
+	 * Atomic builtins do not scale the amount
+	 * by the size of the pointed type.
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		return __atomic_fetch_add(value, amount * static_cast<IntT>(sizeof(T)), __ATOMIC_SEQ_CST);
+	}
+
 	/**
 	 * 
 	 */
@@ -36,6 +46,16 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	/**
+	 * Atomic builtins do not scale the amount
+	 * by the size of the pointed type.
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		return __atomic_fetch_sub(value, amount * static_cast<IntT>(sizeof(T)), __ATOMIC_SEQ_CST);
+	}
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From 79c2491a189a6e131a7ebfd66f6e727cffb7e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 07/43] fix: Atomic assignment may return a value stored by
 another thread

---
 src/korin/core/public/templates/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
-- 
2.43.0


From 7f7fa4e3987c73199fead5a46e11a4379ee0da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:27 +0000
Subject: [PATCH 08/43] fix: MemoryPool without blocks writes through a null
 link

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..8e485c7 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -42,8 +42,8 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	}
 	
 	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	head = link ? buffer : nullptr;
+	if (link) *link = nullptr;
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From 142835a7ccceea2234b478435c2c2f3161feaf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:27 +0000
Subject: [PATCH 09/43] fix: pool realloc returns a block that is too small, or
 already released

---
 src/korin/core/private/hal/malloc_pool.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 8e485c7..5ddc491 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -104,9 +104,7 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 	if (LIKELY(pool.hasBlock(orig)))
 	{
 		if (size > pool.blockSize)
-		{
-			pool.releaseBlock(orig);
-		}
+			out = nullptr; // Block cannot grow, original block is left untouched
 		else
 			; // Return original block
 	}
@@ -230,7 +228,8 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
-	return orig;
+	// Block cannot grow, original block is left untouched
+	return size <= poolInfo.blockSize ? orig : nullptr;
 }
 
 void MallocPooled::free(void * orig)
-- 
2.43.0


From 33801faabb4b7784f7fddaabd76c01d93c5ff533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:27 +0000
Subject: [PATCH 10/43] fix: growing pool with a small alignment has too small
 a buffer

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 5ddc491..a7f8cb7 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -133,8 +133,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
-- 
2.43.0


From c9641b59529154cd60d0e97b1d58520aba3ea17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 11/43] fix: Sort::partition returns no value

---
 src/korin/core/public/algorithm/sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..54ef229 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -37,6 +37,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From ff58d57284e7cc986a86774d6220469d58d3ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 12/43] fix: Optional destroys its value twice, and a value it
 never had

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..ab87c41 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -183,7 +183,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -275,7 +275,7 @@ protected:
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			// Value is destroyed by the optional, if engaged
 		}
 
 		/// Empty byte
-- 
2.43.0


From 3c59e6125058f6afd833af45df508ab236dd257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 13/43] fix: Optional move assignment never destroys the
 moved-from value

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index ab87c41..131c63e 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From 7d37c025214aba472dfc40518792860495658d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 14/43] fix: Optional::emplace overwrites the value without
 destroying it

---
 src/korin/core/public/templates/optional.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 131c63e..61c46cd 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,6 +130,7 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
+		reset();
 		engaged = true;
 		new (&storage.value) T{forward<ArgsT>(args)...};
 	}
-- 
2.43.0


From aeb27c054dcaf1ed0a665a6bc6121aa71b6d4fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 15/43] fix: copying non-trivial elements never ends

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From cdcfc0e7e4504602dfe5effaeb5a7fb2138e988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 16/43] fix: elements with a copy constructor are copied as raw
 memory when trivially constructible

---
 src/korin/core/public/generic/generic_platform_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..6977be0 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
+		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From dc6f427600a4f877970164a4a2f1a58bb536d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 17/43] fix: shifting non-trivial array elements assigns to raw
 memory, or does nothing

---
 .../core/public/generic/generic_platform_memory.h    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 6977be0..42de7eb 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -129,6 +129,10 @@ struct GenericPlatformMemory
 	 * Use this when source and destination
 	 * buffers could overlap.
 	 * 
+	 * Destination holds no elements, apart from
+	 * those shared with source. After the call
+	 * elements live in destination only.
+	 * 
 	 * @param dst destination buffer
 	 * @param src source buffer
 	 * @param n number of elements
@@ -142,15 +146,17 @@ struct GenericPlatformMemory
 			// Copy left to right
 			for (uint64 i = 0; i < n; ++i)
 			{
-				dst[i] = move(src[i]);
+				new (dst + i) TT{move(src[i])};
+				src[i].~TT();
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(dst > src))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
 			{
-				dst[n - i] = move(src[n - i]);
+				new (dst + (n - i)) TT{move(src[n - i])};
+				src[n - i].~TT();
 			}
 		}
 		else
-- 
2.43.0


From b4e4be2fc5d46e9a2a06fa17d8e58c017c066ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 18/43] fix: growing an array never destroys the old elements

---
 src/korin/core/public/containers/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..7b35efe 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -319,6 +319,7 @@ protected:
 			if (buffer)
 			{
 				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::destroyElements(buffer, buffer + count);
 				malloc.free(buffer);
 			}
 
-- 
2.43.0


From 1f8e6f985ae17d81adf7e88d418dfd80226ac075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 19/43] fix: copying an array constructs every element twice

---
 src/korin/core/public/containers/array.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 7b35efe..96588a2 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -389,12 +389,16 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack, inBuffer ? 0 : inCount}
 	{
 		CHECK(buffer != nullptr)
 
-		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer)
+		{
+			// Copy source buffer to destination
+			Memory::constructCopyElements(buffer, inBuffer, inCount);
+			count = inCount;
+		}
 	}
 
 	/**
-- 
2.43.0


From d342f400e0b79990f0431bf3cae58b005ebadbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 20/43] fix: Array::removeLast never destroys the removed
 element

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 96588a2..2f92da0 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -812,7 +812,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From f86aa695266e75f301968fa0d7d7448bb28d1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 21/43] fix: inserting past the end of an array leaves
 unconstructed elements, and reads past the old buffer

---
 src/korin/core/public/containers/array.h | 40 ++++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 2f92da0..34401c9 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -330,6 +330,23 @@ protected:
 		return false;
 	}
 
+	/**
+	 * Resizes buffer and default constructs
+	 * missing elements so that array has at
+	 * least given number of elements.
+	 * 
+	 * @param inCount required count
+	 */
+	FORCE_INLINE void extendIfNecessary(uint64 inCount)
+	{
+		if (inCount > count)
+		{
+			resizeIfNecessary(inCount);
+			if constexpr (__is_constructible(T)) Memory::constructDefaultElements(buffer + count, buffer + inCount);
+			count = inCount;
+		}
+	}
+
 public:
 	/**
 	 * Default constructor
@@ -566,7 +583,8 @@ public:
 	 * position.
 	 * If array size is lower then `idx`,
 	 * allocate required space and return
-	 * ref to idx-th position (non constructed).
+	 * ref to idx-th position (new items are
+	 * default constructed).
 	 * 
 	 * @param idx item position
 	 * @param initValue if item does not
@@ -577,8 +595,7 @@ public:
 	FORCE_INLINE T & operator()(uint64 idx)
 	{
 		// Resize to fit idx
-		resizeIfNecessary(idx + 1);
-		count = PlatformMath::max(count, idx + 1);
+		extendIfNecessary(idx + 1);
 
 		return buffer[idx];
 	}
@@ -588,7 +605,8 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			extendIfNecessary(idx);
+			return insertLast(forward<ItemT>(initValue));
 		}
 		
 		return operator()(idx);
@@ -678,7 +696,12 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			extendIfNecessary(idx);
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
@@ -699,7 +722,12 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			extendIfNecessary(idx);
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From 9acba67f34b5e16fa866b89877fb4a023c2e8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 22/43] fix: a string created with a capacity reports that
 capacity as its length

---
 src/korin/core/public/containers/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..842270d 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -32,7 +32,7 @@ public:
 	 * @param n string capacity
 	 */
 	explicit FORCE_INLINE StringBase(sizet n)
-		: array{nullptr, n + 1}
+		: array{nullptr, 1, n}
 	{
 		array[0] = '\0';
 	}
@@ -66,9 +66,9 @@ public:
 	FORCE_INLINE StringBase(const CharT * src, sizet n)
 		: StringBase{n}
 	{
-		// Copy source and terminate string
+		// Terminate string and copy source
+		array(n) = '\0';
 		Memory::memcpy(*array, src, n);
-		array[n] = '\0';
 	}
 
 	/**
-- 
2.43.0


From e9ac225c19755769c750eb58d9ddd391637e0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 23/43] fix: appending a string to itself reads the released
 buffer

---
 src/korin/core/public/containers/string.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 842270d..2c04d1f 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -303,10 +303,14 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source may be (part of) this very string
+		const bool isSelf = src >= *array && src <= *array + currLen;
+		const sizet offset = isSelf ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, isSelf ? *array + offset : src, len);
 
 		return *this;
 	}
-- 
2.43.0


From 2bf3084e0b8bb5d7c187348880d2404de1372e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 24/43] fix: printing into a string keeps the length of a
 longer content and returns nothing

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 2c04d1f..4a91244 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -452,8 +452,11 @@ private:
 	 */
 	StringBase & printString(const CharT * src, sizet len)
 	{
+		array.empty();
 		array(len) = '\0';
 		Memory::memcpy(*array, src, len);
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 303c127de4857411b1c5d5026eab1713234bb4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 25/43] fix: formatting more than 1023 characters reads past
 the format buffer

---
 src/korin/core/public/containers/string.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 4a91244..6711f36 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -562,7 +562,12 @@ public:
 
 		// Print and return new string
 		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		if ((sizet)len < maxlen) return StringBase{buff, (sizet)len};
+
+		// Print again, now that length is known
+		StringBase out{(sizet)len, '\0'};
+		snprintf(*out, (sizet)len + 1, format, forward<Args>(args)...);
+		return out;
 	}
 
 	/**
-- 
2.43.0


From 7487896fb0331315a435be77faa91eb591107fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 26/43] fix: searching from beyond the end of a string reads
 out of bounds

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 6711f36..9a8b7ef 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -658,7 +658,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From 41d5b2a54e5e1b68f79ac08a358afe21cae5463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 27/43] fix: replacing an empty pattern never ends

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 9a8b7ef..d95b179 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -722,6 +722,9 @@ public:
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// There's nothing to replace
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From 3428fbddf2da9afc4172f9258325fe494dc3a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 28/43] fix: binned allocator picks the wrong bucket unless the
 smallest size equals the increment

---
 src/korin/core/public/hal/malloc_binned.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..7f33718 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -63,8 +63,11 @@ protected:
 	{
 		CHECK(size != 0);
 
-		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		// First bucket holds everything up to its size
+		if (size <= bucketInfo.allocUnitMinSize) return 0;
+
+		// Get power of two index, relative to the first bucket
+		return (PlatformMath::log2(size - 1) - PlatformMath::log2(bucketInfo.allocUnitMinSize)) / PlatformMath::log2(bucketInfo.allocUnitIncrement) + 1;
 	}
 
 public:
-- 
2.43.0


From 014b14f46eada7df1a0108a73fb40ba66f2867f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 29/43] fix: destroying a binned allocator leaks all of its
 buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 6 ++++++
 src/korin/core/public/hal/malloc_binned.h    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..bc296d3 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,12 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	for (uint32 i = 0; i < numBuckets; ++i)
+		delete buckets[i];
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index 7f33718..636342f 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,11 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, destroys all buckets.
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From 2e0c4d1059394753a28ef8294a3357dcac0121d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 30/43] fix: the growing pool allocator never reuses blocks
 released while its head pool is exhausted

---
 src/korin/core/private/hal/malloc_pool.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index a7f8cb7..44b6f25 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -249,6 +249,24 @@ void MallocPooled::free(void * orig)
 			it = it->right;
 	}
 
-	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		// Release block, return to pool
+		MemoryPool * pool = it->data;
+		pool->releaseBlock(orig);
+
+		// Move pool to front
+		Link * link = reinterpret_cast<Link*>(reinterpret_cast<Node*>(pool + 1) + 1);
+		if (link != head)
+		{
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From fd15d5753057e6801f5eb87e40609dcdbbbefe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 31/43] fix: subtracting from or dividing a scalar by a vector
 computes the reverse, and scalar-Vec4 operators do not compile

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 src/korin/core/public/math/vec4.h | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..b62cb32 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} /= v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..bb11379 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} /= v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..cf25488 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,22 +262,22 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return v + s;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return v * s;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} /= v;
 	}
 	/// @}
 
-- 
2.43.0


From f316856513c228e9b173f90ca32554f7b877b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 32/43] fix: the rotation axis read back from a quaternion has
 w in place of z

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..d48acc5 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -72,7 +72,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From 16d793808515fcc62e91baed786a2d62a00f97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 33/43] fix: the quaternion product combines the rotations in
 the reverse of the documented order

---
 src/korin/core/public/math/quat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index d48acc5..a6fc20f 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -110,9 +110,9 @@ public:
 		// thus everything is inverted
 		
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From 003970e92c161c3090b0f00416f263bc06b297ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 34/43] fix: a function object keeps a reference to the
 callable it is given, and refuses plain functions

---
 src/korin/core/public/templates/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..fba340e 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -171,7 +171,7 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From c85ae85d5e80ac1479e5f9bf5e01ef0afd746a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 35/43] fix: copying a function object copies the caller
 without the callable

---
 src/korin/core/public/templates/function.h | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index fba340e..4345225 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -51,6 +51,12 @@ struct FunctionOwnedObjectInterface
 	 * 
 	 */
 	virtual void destroy() = 0;
+
+	/**
+	 * Returns a new owned object, allocated
+	 * on the heap, with a copy of the object
+	 */
+	virtual FunctionOwnedObjectInterface * clone() const = 0;
 };
 
 /**
@@ -110,6 +116,12 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * clone() const override
+	{
+		void * heap = MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject));
+		return new (heap) FunctionOwnedObject{object};
+	}
 };
 
 /**
@@ -154,6 +166,15 @@ struct FunctionStorageBase
 		return getOwnedObject()->getAddress();
 	}
 
+	/**
+	 * Bind a copy of the functor bound
+	 * to another storage object
+	 */
+	FORCE_INLINE void bindCopy(const FunctionStorageBase & other)
+	{
+		heap = other.getOwnedObject()->clone();
+	}
+
 	/**
 	 * Destroy owned object
 	 */
@@ -239,7 +260,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 		: callable{other.callable}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (callable) storage.bindCopy(other.storage);
 	}
 
 	/**
-- 
2.43.0


From 72dbb80aed2c031e6463ac4c413f9da22fbd8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 36/43] fix: assigning a function object never ends, or does
 not compile

---
 src/korin/core/public/templates/function.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 4345225..80ce421 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -319,6 +319,13 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	/** @} */
 
 protected:
+	/// Swap callable and storage with another function
+	FORCE_INLINE void swapWith(FunctionBase & other)
+	{
+		swap(callable, other.callable);
+		swap(storage.heap, other.storage.heap);
+	}
+
 	/// Ptr function that invokes the call operator
 	RetT (*callable)(void*, Args&...);
 
@@ -356,7 +363,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
+		Function copy{other};
+		this->swapWith(copy);
 		return *this;
 	}
 
@@ -365,7 +373,7 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		this->swapWith(other);
 		return *this;
 	}
 
-- 
2.43.0


From da802e2f2cf2854e2e05c110c5ee763243741912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 37/43] fix: comparing two pairs calls itself forever, or does
 not compile

---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From 9dd251957af32d63e45adb975ef870e068e0bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 38/43] fix: copying a non-const fixed array does not compile

---
 src/korin/core/public/templates/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..730156b 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "./enable_if.h"
 #include "./utility.h"
 
 /**
@@ -50,7 +51,7 @@ struct StaticArray
 	 * @param items item to insert in
 	 * 	array
 	 */
-	template<typename ...ItemPackT>
+	template<typename ...ItemPackT, typename = EnableIfT<!(sizeof...(ItemPackT) == 1 && (IsSameType<typename DecayType<ItemPackT>::Type, StaticArray>::value && ...))>>
 	constexpr FORCE_INLINE StaticArray(ItemPackT && ...items)
 		: buffer{forward<ItemPackT>(items)...}
 		, count{inCount}
-- 
2.43.0


From 045608557d9eecca4c1aedda40357ac39eeb2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 39/43] fix: copying an empty tree dereferences null

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..3a12d2d 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		if (other.root) root = cloneSubtree(other.root);
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From 8f44bcb67b85cc476e8b84a9ecb592c6142461b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 40/43] fix: a set was not less than one that extends it at the
 end

---
 src/korin/core/public/containers/set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..174f4ea 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -648,7 +648,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !it && !eq;
+		return !it && (jt || !eq);
 	}
 
 	/**
@@ -697,8 +697,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !jt && !eq;
+		// Return true only if this set still has elements
+		return !jt && (it || !eq);
 	}
 
 private:
-- 
2.43.0


From 49b7f0d8aa7ed6f9aea28a13379eef78eec51d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 41/43] fix: subtracting a set from itself read nodes it had
 removed

---
 src/korin/core/public/containers/set.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 174f4ea..7f811e0 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,13 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		// Nothing remains, and we cannot iterate over the nodes we remove
+		if (this == &other)
+		{
+			tree.empty();
+			return *this;
+		}
+
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From a4b6c107836e58056d9b96932b08387a2ba3aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 42/43] fix: Set::any never looked for its first key

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 7f811e0..f5c33dc 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return (get(key) || ... || get(keys));
 	}
 
 	/**
-- 
2.43.0


From 51af7c443a98597bda9d1184a9879cbf09e3a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 43/43] fix: reading a value from a constant set did not
 compile

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index f5c33dc..6c45bb2 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0

