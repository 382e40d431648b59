From 65f59d99be94c5bc9fc6d3089262e53a07c43231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 01/81] fix: copyElements never terminates on non-trivially
 copyable elements

The loop advanced its bound instead of its counter.
---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From 1df95f52af3df2e3823b01d66b3c24b470e168f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 02/81] fix: inserting or removing inside an array of
 non-trivial elements

moveElements never moved elements to the right (its second condition
repeated the first), assigned to memory that holds no object and left the
source objects alive. Its callers all need the elements relocated.
---
 .../core/public/generic/generic_platform_memory.h    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..ab7f181 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -125,7 +125,9 @@ struct GenericPlatformMemory
 	/// @}
 
 	/**
-	 * Move elements from source to destination.
+	 * Relocate elements from source to
+	 * destination: destination elements are
+	 * constructed and source elements destroyed.
 	 * Use this when source and destination
 	 * buffers could overlap.
 	 * 
@@ -142,15 +144,17 @@ struct GenericPlatformMemory
 			// Copy left to right
 			for (uint64 i = 0; i < n; ++i)
 			{
-				dst[i] = move(src[i]);
+				new (dst + i) TT{move(src[i])};
+				src[i].~TT();
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(dst > src))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
 			{
-				dst[n - i] = move(src[n - i]);
+				new (dst + n - i) TT{move(src[n - i])};
+				src[n - i].~TT();
 			}
 		}
 		else
-- 
2.43.0


From ed3d51cdb86c0a28684552d56ce76ee83259d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 03/81] fix: growing an array leaks its old elements

The old elements were copied but never destroyed: relocate them.
---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..889ded6 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -318,7 +318,7 @@ protected:
 			// Copy elements and free old buffer
 			if (buffer)
 			{
-				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::moveElements(inBuffer, buffer, count);
 				malloc.free(buffer);
 			}
 
-- 
2.43.0


From cd2d6c69db4b6042363c018937d60fbebfaef299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 04/81] fix: insertAt at the end reads past the old buffer

The count was raised before the buffer was resized, so that the resize
copied elements that do not exist.
---
 src/korin/core/public/containers/array.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 889ded6..15d5a63 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -673,7 +673,11 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
@@ -694,7 +698,11 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From 8c93243a4c45ff7a959f25deb7aa3dacbb416730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 05/81] fix: removeLast does not destroy the removed element

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 15d5a63..bdd50b5 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -815,7 +815,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From 9a719d3afac61500181f4b5a3855750617fab895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 06/81] fix: copying an array constructs its elements over live
 ones

The buffer constructor default constructed the elements and then copy
constructed them again in place.
---
 src/korin/core/public/containers/array.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index bdd50b5..53072f1 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -388,12 +388,17 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack}
 	{
 		CHECK(buffer != nullptr)
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer && inCount > 0)
+			Memory::constructCopyElements(buffer, inBuffer, inCount);
+		else
+			Memory::constructDefaultElements(buffer, buffer + inCount);
+
+		count = inCount;
 	}
 
 	/**
-- 
2.43.0


From 76a2f81df29da398efc8e68ebc40fbd35f28305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 07/81] fix: elements with a copy constructor of their own may
 be copied bitwise

constructCopyElements chose the path by the default constructor.
---
 src/korin/core/public/generic/generic_platform_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index ab7f181..21074bb 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
+		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From 0c2a80b253e69d6012d541aece1a06033a37c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 08/81] fix: memcmp reports every difference as 1

The sign of the comparison was lost by returning bool.
---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 21074bb..c2fefa8 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -51,7 +51,7 @@ struct GenericPlatformMemory
 	 * 	mem0 is greater than the corresponding
 	 * 	byte in mem1
 	 */
-	static FORCE_INLINE bool memcmp(const void * mem0, const void * mem1, sizet size)
+	static FORCE_INLINE int32 memcmp(const void * mem0, const void * mem1, sizet size)
 	{
 		return ::memcmp(mem0, mem1, size);
 	}
-- 
2.43.0


From 52ce3761281b8f477fb65c6cd9a18ab6c8de7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 09/81] fix: appending a string to itself reads a freed buffer

---
 src/korin/core/public/containers/string.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..80454cd 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -384,7 +384,13 @@ public:
 	 */
 	StringBase & operator+=(const StringBase & other)
 	{
-		return appendString(*(other.array), other.getLength());
+		const sizet currLen = getLength(), len = other.getLength();
+
+		// Resize first, so that a string can be appended to itself
+		array(currLen + len) = '\0';
+		Memory::memcpy(*array + currLen, *(other.array), len);
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From b2dc8e16ed3b71799765fdd617cac40b9e878340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 10/81] fix: printing a number into a string

printString returned nothing and kept the length of the old content.
---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 80454cd..e1ff679 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -455,7 +455,10 @@ private:
 	StringBase & printString(const CharT * src, sizet len)
 	{
 		array(len) = '\0';
+		array.count = len + 1;
 		Memory::memcpy(*array, src, len);
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From f22367e666555497a6ccfa5641f59688951c834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 11/81] fix: formatting more than 1023 characters reads past
 the buffer

---
 src/korin/core/public/containers/string.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index e1ff679..91fa3d5 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -559,12 +559,12 @@ public:
 	static FORCE_INLINE StringBase format(const char * format, Args &&... args)
 	{
 		// We don't know string length a priori
-		constexpr sizet maxlen = 1024;
-		char buff[maxlen] = {};
+		const sizet len = snprintf(nullptr, 0, format, args...);
+		StringBase out{len};
 
 		// Print and return new string
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		snprintf(*out, len + 1, format, args...);
+		return out;
 	}
 
 	/**
-- 
2.43.0


From dff173d1e3d66a8ce62d3dac86374512f61cbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 12/81] fix: searching from past the end of a string reads out
 of bounds

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 91fa3d5..03f0c8d 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -655,7 +655,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From ed5009a63af033f64cdf683767970178f9c5b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 13/81] fix: replaceAll with an empty pattern never terminates

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 03f0c8d..9dc94d4 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -719,6 +719,9 @@ public:
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// An empty pattern would match forever
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From 646f64dc3c69e12706a9db28875cf2f81d029d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 14/81] fix: removing the first or last link leaves a dangling
 neighbour

The new head kept pointing back to, and the new tail forward to, the
destroyed link.
---
 src/korin/core/public/containers/list.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..244e5e3 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -521,19 +521,18 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+
+		if (prev)
+			prev->next = next;
 		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+			head = next;
+
+		if (next)
+			next->prev = prev;
+		else
+			tail = prev;
 
 		--length;
 
-- 
2.43.0


From e83aac5e95b408698509a79372025825c0bac851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 15/81] fix: list copy assignment

It did not update the length, left the head and tail pointing to destroyed
links and stopped at a wrong tail.
---
 src/korin/core/public/containers/list.h | 43 +++++++------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 244e5e3..2c1c03a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -292,43 +292,24 @@ public:
 		LinkT * it = head;
 		LinkT * jt = other.head;
 
-		if (!jt)
+		for (; it && jt; it = it->next, jt = jt->next)
 		{
-			// Empty array
-			empty();
+			// Copy data
+			it->data = jt->data;
 		}
-		else if (!it)
+
+		while (it)
 		{
-			for (const auto & data : other)
-			{
-				// Copy all items
-				pushBack(data);
-			}
+			// Remove exceeding links
+			LinkT * link = it;
+			it = it->next;
+			remove(link);
 		}
-		else
-		{
-			for (; it && jt; it = (tail = it)->next, jt = jt->next)
-			{
-				// Copy data
-				it->data = jt->data;
-			}
-			
-			while (it)
-			{
-				LinkT * link = it;
-				it = it->next;
-				destroyLink(link);
-			}
 
+		for (; jt; jt = jt->next)
+		{
 			// Push remaining objects
-			while (jt)
-			{
-				pushBack(jt->data);
-				jt = jt->next;
-			}
-
-			// Ensure tail is valid
-			if (tail) tail->next = nullptr;
+			pushBack(jt->data);
 		}
 
 		return *this;
-- 
2.43.0


From 8064c9fb9a6ab6a1f95b859704642d1e54612559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 16/81] fix: list move assignment returns nothing

---
 src/korin/core/public/containers/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 2c1c03a..68a43a8 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -331,6 +331,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 2699ec5bbbe1022cb25cbbdd95eac817cb8c23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 17/81] fix: pushing several lvalues into a list moves them
 away

The pack was forwarded as the type of the list items.
---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 68a43a8..51f29c5 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -447,7 +447,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -495,7 +495,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From bef3a2a9937fa2a32f0917bc04e103dbabc9648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 18/81] fix: a list that owns its allocator frees its links
 into a dead allocator

---
 src/korin/core/public/containers/list.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 51f29c5..5241403 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -685,6 +685,16 @@ public:
 		//
 	}
 
+	/**
+	 * Destructor, destroys links here,
+	 * because the allocator is destroyed
+	 * right after this function.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From 1f6480a8a7d834c86bca29c61155fba2c9aaf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 19/81] fix: copying an empty tree dereferences null

Sets and maps, and the set operators that return a copy, were affected too.
---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..3a12d2d 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		if (other.root) root = cloneSubtree(other.root);
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From b5327dcd4888cc06dd6b9dccffc429c52ef25d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 20/81] fix: Set::any ignores its first key

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..74f29cd 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return get(key) || (get(keys) || ... || false);
 	}
 
 	/**
-- 
2.43.0


From eabfa8ce6ed206c346aef5186e7695302b6f7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 21/81] fix: fetching a value from a constant set does not
 compile

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 74f29cd..12c5e38 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0


From e610776cd184046904b8fa8d9bccf53f0476dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 22/81] fix: subtracting a set from itself reads destroyed
 nodes

---
 src/korin/core/public/containers/set.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 12c5e38..5f94b6a 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,14 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		if (this == &other)
+		{
+			// Nodes of other would be removed
+			// while we iterate over them
+			tree.empty();
+			return *this;
+		}
+
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From b36a3df8f730648f5f9f7dca820f3271754acda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 23/81] fix: strict set inclusion ignores trailing items

{1} < {1, 2} was false because the items left after the walk were not
taken into account.
---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 5f94b6a..cc89722 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -656,7 +656,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !it && !eq;
+		return !it && (jt || !eq);
 	}
 
 	/**
@@ -706,7 +706,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !jt && !eq;
+		return !jt && (it || !eq);
 	}
 
 private:
-- 
2.43.0


From 5c4d4932c9ec7a39bceaf174185654f163a0209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 24/81] fix: comparing two pairs recurses forever

The compare type was applied to the pairs instead of their keys: with
ThreeWayCompare, which calls the pair operators, that never ends.
---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From 71b5a9cd0b1c483132c5b13a4ce797f30ac9cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 25/81] fix: an optional destroys its value twice, or one it
 never had

---
 src/korin/core/public/templates/optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..b364c33 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -183,7 +183,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -271,11 +271,12 @@ protected:
 		}
 
 		/**
-		 * Destructor.
+		 * Destructor, the optional itself
+		 * destroys its value (if any).
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			//
 		}
 
 		/// Empty byte
-- 
2.43.0


From 0bb52e2e673e0927fd422e1e08ec69bc6165e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 26/81] fix: emplacing over an optional value leaks it

---
 src/korin/core/public/templates/optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index b364c33..298beae 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,6 +130,9 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
+		// Destroy existing object
+		reset();
+
 		engaged = true;
 		new (&storage.value) T{forward<ArgsT>(args)...};
 	}
-- 
2.43.0


From 27c32fb6729bf357b562fa22ff1db280dc5ee7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 27/81] fix: moving from an optional leaks the moved value

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 298beae..57efdd5 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From 67afcbe250694976b238c5b5f1dc6c66b7cdf98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 28/81] fix: partition returns nothing

---
 src/korin/core/public/algorithm/sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..54ef229 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -37,6 +37,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From 9afa7743f506139f7cf11f825fde245ac831cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 29/81] fix: a function bound to an lvalue keeps a reference to
 it

---
 src/korin/core/public/templates/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..fba340e 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -171,7 +171,7 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From 30a55d46363e685b56b76f8c671818b131776fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 30/81] fix: assigning a function recurses forever, or does not
 compile

---
 src/korin/core/public/templates/function.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index fba340e..2f5222d 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -335,8 +335,7 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
-		return *this;
+		return *this = Function{other};
 	}
 
 	/**
@@ -344,7 +343,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		swap(this->callable, other.callable);
+		swap(this->storage.heap, other.storage.heap);
 		return *this;
 	}
 
-- 
2.43.0


From a3ac1d7bc56eedcae9484849eb301e5305d444f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 31/81] fix: a copied function calls through a null object

---
 src/korin/core/public/templates/function.h | 34 +++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 2f5222d..7fa1d80 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -51,6 +51,12 @@ struct FunctionOwnedObjectInterface
 	 * 
 	 */
 	virtual void destroy() = 0;
+
+	/**
+	 * Returns a copy of this object, or
+	 * null if object is not copyable
+	 */
+	virtual FunctionOwnedObjectInterface * copy() const = 0;
 };
 
 /**
@@ -110,6 +116,19 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * copy() const override
+	{
+		if constexpr (__is_constructible(T, const T&))
+		{
+			void * heap = MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject));
+			return new (heap) FunctionOwnedObject{object};
+		}
+		else
+		{
+			return nullptr;
+		}
+	}
 };
 
 /**
@@ -154,6 +173,19 @@ struct FunctionStorageBase
 		return getOwnedObject()->getAddress();
 	}
 
+	/**
+	 * Bind to a copy of the object owned
+	 * by another storage
+	 * 
+	 * @return false if object is not
+	 * 	copyable
+	 */
+	FORCE_INLINE bool bindCopy(const FunctionStorageBase & other)
+	{
+		heap = other.getOwnedObject()->copy();
+		return heap != nullptr;
+	}
+
 	/**
 	 * Destroy owned object
 	 */
@@ -239,7 +271,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 		: callable{other.callable}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (callable && !storage.bindCopy(other.storage)) callable = nullptr;
 	}
 
 	/**
-- 
2.43.0


From 30c672119d849ce828e3abd2b59cb9980f33222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 32/81] fix: a memory pool of no blocks writes through null

---
 src/korin/core/private/hal/malloc_pool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..4298a4d 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -41,9 +41,9 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 		*link = head;
 	}
 	
-	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	// Reset head and last link, if there is any block
+	head = link ? buffer : nullptr;
+	if (link) *link = nullptr;
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From 1f0b0fa0d0fce4688392756589926b476c1f793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 33/81] fix: MallocPool::realloc returns a block it has just
 released

---
 src/korin/core/private/hal/malloc_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 4298a4d..dcbdf5b 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -103,9 +103,10 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 
 	if (LIKELY(pool.hasBlock(orig)))
 	{
-		if (size > pool.blockSize)
+		if (size > pool.blockSize || alignment > pool.blockAlignment)
 		{
-			pool.releaseBlock(orig);
+			// Block cannot grow, original block is untouched
+			out = nullptr;
 		}
 		else
 			; // Return original block
-- 
2.43.0


From 4fa16c180b5dff8a84b5f7ff9198fe1bd6a1606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 34/81] fix: MallocPooled::realloc returns a block smaller than
 requested

---
 src/korin/core/private/hal/malloc_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index dcbdf5b..133565b 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -231,7 +231,8 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
-	return orig;
+	// Blocks cannot grow
+	return size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment ? orig : nullptr;
 }
 
 void MallocPooled::free(void * orig)
-- 
2.43.0


From e4f153996f0e4ab426b4308fd3399d948ff709f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 35/81] fix: blocks of a MallocPooled with a small alignment
 overlap its pools

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 133565b..6bb374b 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -136,8 +136,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
-- 
2.43.0


From a01b4a468d1c15135bcfb3698020688a4b2fbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 36/81] fix: MallocPooled creates new pools while it has free
 blocks

---
 src/korin/core/private/hal/malloc_pool.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 6bb374b..2ec9bf1 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -253,5 +253,24 @@ void MallocPooled::free(void * orig)
 	}
 
 	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		MemoryPool * pool = it->data;
+		pool->releaseBlock(orig);
+
+		// Move to front, so that head is exhausted
+		// only if all pools are
+		Link * link = reinterpret_cast<Link*>(reinterpret_cast<Node*>(pool + 1) + 1);
+		if (link != head)
+		{
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From b3d7a1c3efef58481acb577f56e3e04dc4821c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 37/81] fix: MallocBinned picks a bucket of too small blocks

---
 src/korin/core/public/hal/malloc_binned.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..9541cc1 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -63,8 +63,11 @@ protected:
 	{
 		CHECK(size != 0);
 
-		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		// Find first bucket with blocks large enough
+		uint32 idx = 0;
+		for (sizet blockSize = bucketInfo.allocUnitMinSize; idx < numBuckets && blockSize < size; blockSize *= bucketInfo.allocUnitIncrement) ++idx;
+
+		return idx;
 	}
 
 public:
-- 
2.43.0


From e7dc1289432d7506e244685d1786b77bd596ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 38/81] fix: MallocBinned never destroys its buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 5 +++++
 src/korin/core/public/hal/malloc_binned.h    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..bdf4267 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,11 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	for (uint32 i = 0; i < numBuckets; ++i) delete buckets[i];
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index 9541cc1..3c7a541 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,11 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, destroys buckets.
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From be6668845ee8509308f1be68fdd0e0a951dfd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 39/81] fix: non copyable objects, and wrappers that own an
 allocator, cannot be constructed

---
 src/korin/core/public/templates/types.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d925316..c0ab68f 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -368,6 +368,9 @@ public:
  */
 struct NonCopyable
 {
+protected:
+	NonCopyable() = default;
+
 private:
 	NonCopyable(const NonCopyable&) = delete;
 	NonCopyable& operator=(const NonCopyable&) = delete;
-- 
2.43.0


From 40afe8c683d1cfa8f1f4ba03473861ef422774a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 40/81] fix: assigning an atomic may return a value stored by
 another thread

---
 src/korin/core/public/templates/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
-- 
2.43.0


From ba52e76d8f06aad513feec7bd955dd66e7bf5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 41/81] fix: arithmetic on atomic pointers moves them by bytes

---
 .../core/public/unix/unix_platform_atomics.h      | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..907b0f5 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -27,6 +27,15 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_add(value, amount);
 	}
 
+	/**
+	 * Pointers advance by items, not by bytes
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_add(value, static_cast<intp>(amount) * static_cast<intp>(sizeof(T)));
+	}
+
 	/**
 	 * 
 	 */
@@ -36,6 +45,12 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_sub(value, static_cast<intp>(amount) * static_cast<intp>(sizeof(T)));
+	}
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From ab6c400e1fbafdb8ca8949e726b89fcdeebbc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 42/81] fix: destroying an automaton leaks what its states hold

---
 src/korin/core/public/regex/state.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..540157c 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -239,6 +239,12 @@ namespace Re
 			return String::format("?#%u", id);
 		}
 
+		/**
+		 * States are destroyed through a
+		 * pointer to their base class.
+		 */
+		virtual ~StateBase() = default;
+
 	protected:
 		/// State id, used to identify state
 		uint64 id;
-- 
2.43.0


From 8d85dc1f125823f47ad738b6b5ac0f3dd20a7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 43/81] fix: \D, \S and \W read past the end of the input

---
 src/korin/core/private/regex/regex.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..f8da01a 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -107,7 +107,7 @@ namespace Re
 				// Matches any single non-digit character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isDigit(*input);
+					return outNumRead = *input != '\0' && !isDigit(*input);
 				}, "NonDigit");
 				break;
 			}
@@ -127,7 +127,7 @@ namespace Re
 				// Matches any single non-whitespace character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWhiteSpace(*input);
+					return outNumRead = *input != '\0' && !isWhiteSpace(*input);
 				}, "NonWhiteSpace");
 				break;
 			}
@@ -147,7 +147,7 @@ namespace Re
 				// Matches any single non-word character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWord(*input);
+					return outNumRead = *input != '\0' && !isWord(*input);
 				}, "NonWord");
 				break;
 			}
-- 
2.43.0


From 2f3c2790c4c01303f9803ae99aaf554d96a8a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 44/81] fix: a repeated group may continue from the wrong state

---
 src/korin/core/public/regex/automaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..d64a61f 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -360,6 +360,10 @@ namespace Re
 					prevState->addNextState(currentState);
 				}
 			} while (visitQueue.popBack(currVisit));
+
+			// Continue from end of cloned group, which
+			// need not be the last visited state
+			visitedStates.find(endState, currentState);
 		}
 
 	public:
-- 
2.43.0


From 407667fe46cad1cde0cc1c2a1e3ab378d3ab2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 45/81] fix: an executor reset with a new input reads the old
 one

---
 src/korin/core/public/regex/executor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..c25d88a 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -137,10 +137,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 7ba2af7303a337db3b0d31f33f99ad3485b5922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 46/81] fix: negated classes and lookaheads look at the last
 symbol only

---
 src/korin/core/public/regex/executor.h | 23 +++++++++++++++++++++++
 src/korin/core/public/regex/state.h    | 10 ++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index c25d88a..0425c2e 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -156,6 +156,15 @@ namespace Re
 		 */
 		bool step(bool & outIsAccepted);
 
+		/**
+		 * Step until the accepted state is
+		 * reached, even if some input is left.
+		 * 
+		 * @return true if some prefix of the
+		 * 	input is accepted
+		 */
+		bool acceptPrefix();
+
 	protected:
 		/// Start state
 		const StateT * startState;
@@ -211,4 +220,18 @@ namespace Re
 		// Neither accepted, nor rejected
 		return false;
 	}
+
+	template<typename AlphaT>
+	bool Executor<AlphaT>::acceptPrefix()
+	{
+		bool isAccepted = isAcceptedState(), isDone = false;
+		
+		while (!isAccepted && !isDone)
+		{
+			isDone = step(isAccepted);
+			isAccepted = isAccepted || isAcceptedState();
+		}
+
+		return isAccepted;
+	}
 } // namespace Re
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 540157c..343b9b6 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -688,11 +688,8 @@ namespace Re
 	template<typename AlphaT>
 	bool StatePositiveLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
-		bool isAccepted = false;
-		while (!executor.step(isAccepted));
-
 		outNumRead = 0;
-		return isAccepted;
+		return executor.acceptPrefix();
 	}
 
 	/**
@@ -719,10 +716,7 @@ namespace Re
 	template<typename AlphaT>
 	bool StateNegativeLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
-		bool isAccepted = false;
-		while (!executor.step(isAccepted));
-
 		outNumRead = 0;
-		return !isAccepted;
+		return !executor.acceptPrefix();
 	}
 } // namespace Re
-- 
2.43.0


From 0a7390da28ff1260f623f04933a54fd5c80e44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 47/81] fix: matching nested repetitions never terminates

---
 src/korin/core/public/regex/executor.h | 29 +++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 0425c2e..534fc35 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/set.h"
 #include "containers/tuple.h"
 #include "./regex_types.h"
 
@@ -29,6 +30,20 @@ namespace Re
 		using AlphaStringT = typename StateT::AlphaStringT;
 		using VisitT = Tuple<const StateT* /* currentState */, AlphaStringT /* input */, int32 /* totRead */>;
 
+		/**
+		 * Compare type used to find visits.
+		 * The number of read symbols is also
+		 * the position in the input string.
+		 */
+		struct FindVisit
+		{
+			FORCE_INLINE int32 operator()(const VisitT & a, const VisitT & b) const
+			{
+				const int32 cmp = FindStateT{}(a.template get<0>(), b.template get<0>());
+				return cmp != 0 ? cmp : a.template get<2>() - b.template get<2>();
+			}
+		};
+
 	public:
 		Executor() = delete;
 
@@ -129,6 +144,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			queuedVisits = {};
 
 			// Reset current visit with
 			// start state and input
@@ -178,6 +194,9 @@ namespace Re
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// Visits that have already been queued
+		Set<VisitT, FindVisit> queuedVisits;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
@@ -198,7 +217,15 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
+				const VisitT nextVisit{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead};
+
+				if (!queuedVisits.get(nextVisit))
+				{
+					// Visiting a state twice at the same
+					// position may never terminate
+					queuedVisits.set(nextVisit);
+					visitQueue.pushBack(nextVisit);
+				}
 			}
 		}
 
-- 
2.43.0


From 9a24d6a00cc5a8e00cf88f05ab11a8a2f6b33421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 48/81] fix: repetitions of at least zero or one use an
 uninitialised state

---
 src/korin/core/private/regex/regex.cpp  |  4 ++--
 src/korin/core/public/regex/automaton.h | 26 +++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index f8da01a..ee6a33a 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -339,7 +339,7 @@ namespace Re
 					if (idx == closeBracketPos)
 					{
 						// Exact repetition
-						builder.pushRepeat(min, min);
+						min > 0 ? builder.pushRepeat(min, min) : builder.pushNone();
 						break;
 					}
 
@@ -375,7 +375,7 @@ namespace Re
 					}
 
 					// At least min, at most max repetitions
-					builder.pushRepeat(min, max);
+					max > 0 ? builder.pushRepeat(min, max) : builder.pushNone();
 					break;
 					
 					break;
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index d64a61f..1fdd4ec 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -638,7 +638,7 @@ namespace Re
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
+			StateT * prevState = groupStart[currentGroup];
 
 			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
 			{
@@ -664,7 +664,7 @@ namespace Re
 			{
 				CHECK(minRepeats <= maxRepeats);
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				for (int32 repeatIdx = minRepeats > 1 ? minRepeats : 1; repeatIdx < maxRepeats; ++repeatIdx)
 				{
 					// Groups here can be skipped.
 					currentState->addNextState(epsilon);
@@ -674,6 +674,12 @@ namespace Re
 				}
 			}
 
+			if (minRepeats == 0)
+			{
+				// All repetitions can be skipped
+				groupStart[currentGroup]->addNextState(epsilon);
+			}
+
 			// Define current group as entire
 			// repetition group, such that
 			// following operations address
@@ -683,6 +689,22 @@ namespace Re
 			return *this;
 		}
 
+		/**
+		 * Drops the last inserted state or
+		 * group (equivalent to `{0}` in regex
+		 * syntax).
+		 * 
+		 * @return ref to self
+		 */
+		FORCE_INLINE AutomatonBuilder & pushNone()
+		{
+			// Continue from before the group, whose
+			// states lead nowhere
+			groupEnd[currentGroup] = currentState = groupStart[currentGroup];
+
+			return *this;
+		}
+
 	protected:
 		/// Max number of groups
 		static constexpr sizet maxNumGroups = 127;
-- 
2.43.0


From 25f89720357ece2962331946452060d0a1208848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 49/81] fix: a class that ends with an escaped backslash is not
 closed

---
 src/korin/core/private/regex/regex.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index ee6a33a..29e1cc3 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -217,7 +217,11 @@ namespace Re
 					// Get index of open and close brackets
 					sizet openBracketIdx = idx;
 					sizet closeBracketIdx = idx;
-					for (; (pattern[closeBracketIdx] != ']' || pattern[closeBracketIdx - 1] == '\\') && closeBracketIdx < patternLen ; ++closeBracketIdx);
+					for (; closeBracketIdx < patternLen && pattern[closeBracketIdx] != ']'; ++closeBracketIdx)
+					{
+						// Skip escaped symbols
+						if (pattern[closeBracketIdx] == '\\' && closeBracketIdx + 1 < patternLen) ++closeBracketIdx;
+					}
 					
 					if (closeBracketIdx == patternLen)
 					{
-- 
2.43.0


From dd1232512d2c19faa82b8921e17e36f5894ce755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 50/81] fix: a scalar minus or divided by a vector swaps its
 operands

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 src/korin/core/public/math/vec4.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..b62cb32 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} /= v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..11afc3a 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} - v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} / v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..7259ae9 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -267,7 +267,7 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} - v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
@@ -277,7 +277,7 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} / v;
 	}
 	/// @}
 
-- 
2.43.0


From e83d0fdabf859955a4e1f7dbf6ca852edf5d367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 51/81] fix: adding or multiplying a scalar and a vector of
 four does not compile

---
 src/korin/core/public/math/vec4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 7259ae9..948d2c7 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,7 +262,7 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return v + s;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
@@ -272,7 +272,7 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return v * s;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
-- 
2.43.0


From abaeb660a92cfff672dc77c7a4ceb16c80c67c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 52/81] fix: the cross product of integer vectors does not
 compile

---
 src/korin/core/public/math/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index b62cb32..3e08676 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -285,7 +285,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	 */
 	FORCE_INLINE Vec3<T> operator^(Vec2 other) const
 	{
-		return Vec3<T>{0.f, 0.f, x * other.y - y * other.x};
+		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};
 	}
 
 	/**
-- 
2.43.0


From b98abbf4565064b0c6fe88ff067f50d93f3bc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 53/81] fix: extracting the rotation axis uses w in place of z

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..d48acc5 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -72,7 +72,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From 2a96ecbb5f900669668aa34274e03e8fe30d803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 54/81] fix: a null rotation vector makes a quaternion of NaNs

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index d48acc5..869cbfb 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -52,7 +52,7 @@ public:
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-		v *= PlatformMath::sin(a) / alpha;
+		v *= alpha > 0.f ? PlatformMath::sin(a) / alpha : 0.5f;
 
 		this->x = v.x;
 		this->y = v.y;
-- 
2.43.0


From 2f2378148ce22aa27e7bbc9727f7457dd8a0a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 55/81] fix: raising to a negative integer power recurses
 forever

---
 src/korin/core/public/generic/generic_platform_math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/generic/generic_platform_math.h b/src/korin/core/public/generic/generic_platform_math.h
index 86d18e8..96f25fc 100644
--- a/src/korin/core/public/generic/generic_platform_math.h
+++ b/src/korin/core/public/generic/generic_platform_math.h
@@ -34,6 +34,7 @@ struct GenericPlatformMath
 	static FORCE_INLINE typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
 	{
 		if (y == 0) return T{1};
+		if (y < 0) return T{1} / (pow(x, -(y + 1)) * x);
 		T z = pow(x, y >> 1);
 		return y & 0x1 ? z * z * x : z * z;
 	}
-- 
2.43.0


From c486f4a289e780f64b6031fdfb808c0b4746e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 56/81] fix: loading the components of a SIMD vector reverses
 them

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 2d2380c..248d784 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -31,7 +31,7 @@ struct Vector4<float32>
 
 	static FORCE_INLINE Type load(T a, T b, T c, T d)
 	{
-		return _mm_set_ps(a, b, c, d);
+		return _mm_setr_ps(a, b, c, d);
 	}
 
 	static FORCE_INLINE Type load(T s)
-- 
2.43.0


From 3f06b7b506a58ea49fccf6aa68947b2b9943cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 57/81] fix: the constants of vectors of two and four are never
 defined

---
 src/korin/core/private/math/math.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/math/math.cpp b/src/korin/core/private/math/math.cpp
index 4e35840..36cf851 100644
--- a/src/korin/core/private/math/math.cpp
+++ b/src/korin/core/private/math/math.cpp
@@ -1,5 +1,12 @@
 #include "math/math.h"
 
+//////////////////////////////////////////////////
+// Vec2
+//////////////////////////////////////////////////
+
+template<> const Vec2<float32> Vec2<float32>::zero = {0.f};
+template<> const Vec2<float32> Vec2<float32>::unit = {1.f};
+
 //////////////////////////////////////////////////
 // Vec3
 //////////////////////////////////////////////////
@@ -11,4 +18,11 @@ template<> const Vec3<float32> Vec3<float32>::left = {-1.f, 0.f, 0.f};
 template<> const Vec3<float32> Vec3<float32>::up = {0.f, 1.f, 0.f};
 template<> const Vec3<float32> Vec3<float32>::down = {0.f, -1.f, 0.f};
 template<> const Vec3<float32> Vec3<float32>::forward = {0.f, 0.f, 1.f};
-template<> const Vec3<float32> Vec3<float32>::backward = {0.f, 0.f, -1.f};
\ No newline at end of file
+template<> const Vec3<float32> Vec3<float32>::backward = {0.f, 0.f, -1.f};
+
+//////////////////////////////////////////////////
+// Vec4
+//////////////////////////////////////////////////
+
+template<> const Vec4<float32> Vec4<float32>::zero = {0.f};
+template<> const Vec4<float32> Vec4<float32>::unit = {1.f};
-- 
2.43.0


From 6e79e33c18711ea80996932fa916eebf0398428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 58/81] fix: the size of a vector of doubles is never computed

---
 src/korin/core/public/math/vec2.h | 6 ++++++
 src/korin/core/public/math/vec3.h | 6 ++++++
 src/korin/core/public/math/vec4.h | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 3e08676..3856753 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -384,4 +384,10 @@ template<>
 FORCE_INLINE float32 Vec2<float32>::getSize() const
 {
 	return PlatformMath::sqrt(getSquaredSize());
+}
+
+template<>
+FORCE_INLINE float64 Vec2<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
 }
\ No newline at end of file
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 11afc3a..2279aa4 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -417,6 +417,12 @@ FORCE_INLINE float32 Vec3<float32>::getSize() const
 	return PlatformMath::sqrt(getSquaredSize());
 }
 
+template<>
+FORCE_INLINE float64 Vec3<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
+}
+
 template<>
 FORCE_INLINE bool Vec3<float32>::isNearlyZero() const
 {
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 948d2c7..0124526 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -398,4 +398,10 @@ template<>
 FORCE_INLINE float32 Vec4<float32>::getSize() const
 {
 	return PlatformMath::sqrt(getSquaredSize());
+}
+
+template<>
+FORCE_INLINE float64 Vec4<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
 }
\ No newline at end of file
-- 
2.43.0


From 4e5acdf57c430ea815c7e7ad65cd4fa1f604c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 59/81] fix: constructing a quaternion from a rotation vector
 is ambiguous

---
 src/korin/core/public/math/quat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 869cbfb..84498f8 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -47,8 +47,12 @@ public:
 	/**
 	 * Constructs from physics rotation vector
 	 */
-	FORCE_INLINE Quat(Vec3<float32> v)
+	FORCE_INLINE Quat(const Vec3<float32> & inVector)
 	{
+		// Hides the inherited constructor
+		// that accepts the same parameter
+		Vec3<float32> v{inVector};
+
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-- 
2.43.0


From 0931b07f6518ec2ec0a454a236e2093a214d76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 60/81] fix: the product of quaternions applies the rotations
 in the wrong order

---
 src/korin/core/public/math/quat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 84498f8..bd1f071 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -114,9 +114,9 @@ public:
 		// thus everything is inverted
 		
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From c01d5d2f1b6eaecd853265f097e04f84fa43ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 61/81] fix: copying a static array that is not constant does
 not compile

---
 src/korin/core/public/templates/array.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..b0e293a 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -43,6 +43,25 @@ struct StaticArray
 		}
 	}
 
+	/**
+	 * Copy and move. The non-const overload
+	 * is required since the constructor that
+	 * accepts item values is a better match.
+	 * @{
+	 */
+	constexpr FORCE_INLINE StaticArray(const StaticArray &) = default;
+
+	constexpr FORCE_INLINE StaticArray(StaticArray & other)
+		: StaticArray{static_cast<const StaticArray&>(other)}
+	{
+		//
+	}
+
+	constexpr FORCE_INLINE StaticArray(StaticArray &&) = default;
+	StaticArray & operator=(const StaticArray &) = default;
+	StaticArray & operator=(StaticArray &&) = default;
+	/** @} */
+
 	/**
 	 * Constructor that accepts one or
 	 * more item values.
-- 
2.43.0


From 93c3cd53f46593061f4da09e10a84ec7eee4dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 62/81] fix: a container that was moved from has no allocator
 to be assigned to with

---
 src/korin/core/public/hal/malloc_object.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_object.h b/src/korin/core/public/hal/malloc_object.h
index 3caf770..f3f5f65 100644
--- a/src/korin/core/public/hal/malloc_object.h
+++ b/src/korin/core/public/hal/malloc_object.h
@@ -43,7 +43,7 @@ public:
 	FORCE_INLINE MallocObject(MallocObject && other)
 		: malloc{other.malloc}
 	{
-		other.malloc = nullptr;
+		//
 	}
 
 	/**
@@ -52,7 +52,6 @@ public:
 	FORCE_INLINE MallocObject & operator=(MallocObject && other)
 	{
 		malloc = other.malloc;
-		other.malloc = nullptr;
 
 		return *this;
 	}
-- 
2.43.0


From e1c01fc93d85489efbd8cf7ed338d112ef296013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 63/81] fix: comparing pointers to constants does not compile

---
 src/korin/core/public/templates/functional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/functional.h b/src/korin/core/public/templates/functional.h
index a887d1c..27b0811 100644
--- a/src/korin/core/public/templates/functional.h
+++ b/src/korin/core/public/templates/functional.h
@@ -41,6 +41,6 @@ struct ThreeWayCompare
 	template<typename A, typename B>
 	FORCE_INLINE int32 operator()(const A * a, const B * b) const
 	{
-		return *this(forward<A>(*a), forward<B>(*b));
+		return (*this)(*a, *b);
 	}
 };
\ No newline at end of file
-- 
2.43.0


From 4c3b86ecc8795ac6271b59f65d253f2297f81d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 64/81] fix: counting the nodes of a subtree does not compile

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 3a12d2d..18375df 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(BinaryNode * root)
+	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From 77aee48e8a9688593462340c3269c62c9eced621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 65/81] fix: removing a part of a string with splice is
 ambiguous

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 9dc94d4..747923c 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -624,7 +624,7 @@ public:
 	 * @return ref to self
 	 * @{
 	 */
-	StringBase & splice(sizet pos, sizet len, const StringBase & inserted = "")
+	StringBase & splice(sizet pos, sizet len, const StringBase & inserted)
 	{
 		return splice(pos, len, *inserted, inserted.getLength());
 	}
-- 
2.43.0


From 38864799c75954d616d4948284c33f6be0a5ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 66/81] fix: getting the current state of an executor does not
 compile

---
 src/korin/core/public/regex/executor.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 534fc35..50aef94 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -72,19 +72,12 @@ namespace Re
 
 		/**
 		 * Returns current state.
-		 * @{
 		 */
 		FORCE_INLINE const StateT * getCurrentState() const
 		{
 			return currVisit.template get<0>();
 		}
 
-		FORCE_INLINE StateT * getCurrentState()
-		{
-			return currVisit.template get<0>();
-		}
-		/** @} */
-
 		/**
 		 * Returns current input.
 		 * @{
-- 
2.43.0


From 0d1badf54a421e943bd2945947f6606755801791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 67/81] fix: elements that can only be moved are moved bitwise

---
 src/korin/core/public/templates/types.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index c0ab68f..fb7f737 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -185,13 +185,14 @@ struct IsTriviallyDestructible
 };
 
 /**
- * Sets value to true if T has trivial
- * copy constructor
+ * Sets value to true if T can be copied
+ * as plain memory, i.e. none of its copy,
+ * move and destruction does anything else
  */
 template<typename T>
 struct IsTriviallyCopyable
 {
-	enum {value = __has_trivial_copy(T)};
+	enum {value = __is_trivially_copyable(T)};
 };
 
 /**
-- 
2.43.0


From 65345dda646fe0604077b6f10fbf6ffcade5343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 68/81] fix: the decayed type of an array is not a pointer to
 its items

---
 src/korin/core/public/templates/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index fb7f737..00f0e55 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -355,7 +355,7 @@ class DecayType
 public:
 	using Type = typename ChooseType<
 		IsArray<U>::value,
-		typename RemoveArray<U>::Type, // If is array
+		typename RemoveArray<U>::Type*, // If is array
 		typename ChooseType<
 			IsCFunction<U>::value,
 			typename AddPointer<U>::Type,
-- 
2.43.0


From 1a734a7a14a6a0e1db5f0cec734dd81518772836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 69/81] fix: removing all pointers from a type stops at a
 constant pointer

---
 src/korin/core/public/templates/types.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 00f0e55..9afc073 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -242,7 +242,10 @@ struct RemoveAllPointers
 	using Type = T;
 };
 
-template<typename T> struct RemoveAllPointers<T*> { using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T*>					{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const>				{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* volatile>			{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const volatile>	{ using Type = typename RemoveAllPointers<T>::Type; };
 /// @}
 
 /**
-- 
2.43.0


From 5dcf155ab64a1e81b6c1f59bb6cdbae8b1f445cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 70/81] fix: variadic and noexcept functions are not recognised
 as functions

---
 src/korin/core/public/templates/types.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 9afc073..2a63854 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -144,7 +144,10 @@ struct IsCFunction
 	enum {value = false};
 };
 
-template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...)> { enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...)>				{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args..., ...)>			{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...) noexcept>		{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args..., ...) noexcept>	{ enum {value = true}; };
 
 /**
  * Sets value to true if T is a trivial type
-- 
2.43.0


From ce335f19b2bd43996c20174e0d809e8d600b48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 71/81] fix: the angle of a product of rotations may not be a
 number

---
 src/korin/core/public/math/quat.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index bd1f071..86b2a58 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -72,7 +72,8 @@ public:
 	 */
 	FORCE_INLINE void getAngleAndAxis(float32 & outAngle, Vec3<float32> & outAxis) const
 	{
-		float32 a = PlatformMath::acos(this->w);
+		// Rounding may push the cosine past its limits
+		float32 a = PlatformMath::acos(PlatformMath::max(-1.f, PlatformMath::min(1.f, this->w)));
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
@@ -84,7 +85,8 @@ public:
 	 */
 	FORCE_INLINE float32 getAngle() const
 	{
-		return PlatformMath::acos(this->w) * 2.f;
+		// Rounding may push the cosine past its limits
+		return PlatformMath::acos(PlatformMath::max(-1.f, PlatformMath::min(1.f, this->w))) * 2.f;
 	}
 
 	/**
-- 
2.43.0


From 1ab0318cddcb266f5e8280ba7bbff748ae8d5dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 72/81] fix: the debugger displays of optional strings are
 quoted twice

---
 extras/gdb/types.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index c265a77..7a195d7 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -86,18 +86,14 @@ class OptionalPrinter:
 	def display_hint(self) -> str:
 		"""  """
 
-		visualizer = gdb.default_visualizer(self.value)
-
-		if visualizer is not None:
-			return visualizer.display_hint()
-		else:
-			return None
+		# The value is displayed with its own hint
+		return None
 	
 	def to_string(self) -> str:
 		"""  """
 
 		if self.has_value:
-			return str(self.value)
+			return self.value
 		else:
 			return '(nil)'
 
-- 
2.43.0


From 64356f133b160d70ff35b94e696643f9036a6723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 73/81] fix: the debugger display of a rotation may raise an
 error

---
 extras/gdb/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extras/gdb/types.py b/extras/gdb/types.py
index 7a195d7..371e674 100644
--- a/extras/gdb/types.py
+++ b/extras/gdb/types.py
@@ -389,7 +389,8 @@ class QuatPrinter:
 		self._value = value
 		
 		try:
-			a = math.acos(value['w'])
+			# Rounding may push the cosine past its limits
+			a = math.acos(max(-1.0, min(1.0, float(value['w']))))
 			s = 1.0 / math.sin(a)
 			self.angle = a * 2.0
 			self.axis = [
-- 
2.43.0


From 83963f7c5844186e91637878231de73c4949ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 74/81] fix: removing an item from a set by a key of another
 type does not compile

---
 src/korin/core/public/containers/set.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index cc89722..a0c48d8 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -281,7 +281,10 @@ public:
 	template<typename KeyT>
 	FORCE_INLINE bool remove(const KeyT & key)
 	{
-		return tree.remove(key);
+		if (NodeT * node = tree.findNode(key))
+			return tree.removeNode(node), true;
+		
+		return false;
 	}
 
 	template<typename KeyT>
-- 
2.43.0


From 32919bb46e19bd52c08298d93df5777188b43937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 75/81] fix: number the states of regular expressions
 atomically

The counter that gives each state of an automaton its id was incremented
without synchronization. Two threads compiling separate expressions could
give two states of one automaton the same id, and lose one of them.
---
 src/korin/core/public/regex/state.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 343b9b6..43a2c47 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "hal/platform_atomics.h"
 #include "templates/function.h"
 #include "containers/list.h"
 #include "containers/tuple.h"
@@ -59,9 +60,10 @@ namespace Re
 			, nextStates{}
 			, prevStates{}
 		{
-			// Generate unique id
+			// Generate unique id (states may be
+			// created by several threads)
 			static uint64 counter = 0;
-			id = ++counter;
+			id = PlatformAtomics::add(&counter, 1ull) + 1;
 		}
 
 		/**
-- 
2.43.0


From 85166861f8574e14eb6e35fb74272205c4da960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 76/81] fix: a range of characters does not match the end of
 the input

---
 src/korin/core/public/regex/state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 43a2c47..20006b1 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -493,7 +493,7 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateRange<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input >= min && *input <= max);
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input >= min && *input <= max);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From d0c004d493b7ccf22049820571ac143b1f673eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 77/81] fix: appending or splicing part of a string into itself
 read a freed buffer

---
 src/korin/core/public/containers/string.h | 24 ++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 747923c..24e8e10 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -293,6 +293,18 @@ public:
 	/** @} */
 
 private:
+	/**
+	 * Returns true if pointer points into the
+	 * buffer of this string.
+	 * 
+	 * @param ptr pointer to test
+	 * @return true if it does
+	 */
+	FORCE_INLINE bool contains(const CharT * ptr) const
+	{
+		return ptr >= *array && ptr < *array + array.count;
+	}
+
 	/**
 	 * Append a string at the end of this
 	 * string.
@@ -303,10 +315,15 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source may be part of this string, whose
+		// buffer may be reallocated
+		const bool own = contains(src);
+		const sizet pos = own ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, own ? *array + pos : src, len);
 
 		return *this;
 	}
@@ -586,6 +603,11 @@ private:
 	 */
 	StringBase & splice(sizet subPos, sizet subLen, const CharT * replSrc, sizet replLen)
 	{
+		// Use a copy if replacement is part of this
+		// string, the following operations would
+		// overwrite or reallocate it
+		if (contains(replSrc)) return splice(subPos, subLen, *StringBase{replSrc, replLen}, replLen);
+
 		if (replLen <= subLen)
 		{
 			// Since replacement string is smaller
-- 
2.43.0


From 8a3f1aca68c575bd029b7ccc0b770b636afe8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 78/81] fix: replacing with the string itself as pattern or
 replacement read a changing text

---
 src/korin/core/public/containers/string.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 24e8e10..0a0e45a 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -737,6 +737,10 @@ public:
 	 */
 	StringBase & replaceAll(const StringBase & pattern, const StringBase & replacement)
 	{
+		// Use copies if this string is an argument,
+		// since it is about to change
+		if (this == &pattern || this == &replacement) return replaceAll(StringBase{pattern}, StringBase{replacement});
+
 		sizet patternLen = pattern.getLength();
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
-- 
2.43.0


From e0870c5ef5a746091e9547fdb0d9c9bdafea3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 79/81] fix: inserting an array's own element read a freed or
 moved one

---
 src/korin/core/public/containers/array.h | 57 +++++++++++++++++++++---
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 53072f1..5ee52c2 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -588,7 +588,10 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			const T * prevBuffer = buffer;
+			const uint64 prevCount = count;
+			T * item = &(operator()(idx));
+			return *(new (item) T{followItem(forward<ItemT>(initValue), prevBuffer, prevCount, count, 0)});
 		}
 		
 		return operator()(idx);
@@ -628,6 +631,29 @@ public:
 	/** @} */
 
 protected:
+	/**
+	 * Returns a ref to an item about to be inserted.
+	 * If the item is (part of) an element of this
+	 * array it was moved with the element.
+	 * 
+	 * @param item item to insert
+	 * @param prevBuffer,prevCount buffer and number
+	 * 	of elements before making room
+	 * @param idx,num position and number of elements
+	 * 	for which room was made
+	 * @return ref to item
+	 */
+	template<typename ItemT>
+	FORCE_INLINE ItemT && followItem(ItemT && item, const T * prevBuffer, uint64 prevCount, uint64 idx, uint64 num) const
+	{
+		uintp addr = (uintp)&item, prev = (uintp)prevBuffer;
+		if (addr < prev || addr >= prev + prevCount * sizeof(T)) return forward<ItemT>(item);
+
+		addr += (uintp)buffer - prev;
+		if (addr >= (uintp)(buffer + idx)) addr += num * sizeof(T);
+		return forward<ItemT>(*(typename RemoveReference<ItemT>::Type*)addr);
+	}
+
 	/**
 	 * Insert item without resizing.
 	 * 
@@ -669,6 +695,8 @@ public:
 	T & insertAt(uint64 idx, ItemT && item)
 	{
 		const uint64 j = idx + 1;
+		const T * prevBuffer = buffer;
+		const uint64 prevCount = count;
 
 		if (idx < count)
 		{
@@ -685,7 +713,7 @@ public:
 		}
 		
 		// Copy construct element
-		return insertNoResize(idx, forward<ItemT>(item));
+		return insertNoResize(idx, followItem(forward<ItemT>(item), prevBuffer, prevCount, idx, 1));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -694,6 +722,8 @@ public:
 		// Number of elements to insert
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
 		const uint64 j = idx + numArgs;
+		const T * prevBuffer = buffer;
+		const uint64 prevCount = count;
 
 		if (idx < count)
 		{
@@ -710,7 +740,7 @@ public:
 		}
 		
 		// Copy construct elements
-		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertNoResize(idx, followItem(forward<ItemT>(item), prevBuffer, prevCount, idx, numArgs), followItem(forward<ItemListT>(items), prevBuffer, prevCount, idx, numArgs) ...);
 	}
 	/** @} */
 
@@ -725,6 +755,9 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
+		const T * prevBuffer = buffer;
+		const uint64 prevCount = count;
+
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
@@ -732,7 +765,7 @@ public:
 		++count;
 
 		// Copy construct element
-		return insertNoResize(0, forward<ItemT>(item));
+		return insertNoResize(0, followItem(forward<ItemT>(item), prevBuffer, prevCount, 0, 1));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -740,12 +773,15 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
+		const T * prevBuffer = buffer;
+		const uint64 prevCount = count;
+
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
 		Memory::moveElements(buffer + numArgs, buffer, count);
 		count += numArgs;
 
-		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertNoResize(0, followItem(forward<ItemT>(item), prevBuffer, prevCount, 0, numArgs), followItem(forward<ItemListT>(items), prevBuffer, prevCount, 0, numArgs) ...);
 	}
 	/// @}
 
@@ -760,8 +796,13 @@ public:
 	template<typename ItemT>
 	T & insertLast(ItemT && item)
 	{
+		const T * prevBuffer = buffer;
+
 		resizeIfNecessary(count + 1);
-		return insertNoResize(count++, forward<ItemT>(item));
+		T & inserted = insertNoResize(count, followItem(forward<ItemT>(item), prevBuffer, count, count, 0));
+
+		++count;
+		return inserted;
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -769,9 +810,11 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
+		const T * prevBuffer = buffer;
+
 		// Resize and copy construct elements
 		resizeIfNecessary(count + numArgs);
-		insertNoResize(count, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertNoResize(count, followItem(forward<ItemT>(item), prevBuffer, count, count, 0), followItem(forward<ItemListT>(items), prevBuffer, count, count, 0) ...);
 
 		count += numArgs;
 	}
-- 
2.43.0


From 97102412a3a961366c94d37b15857214d8663834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 80/81] fix: an optional whose value fails to be constructed
 has none

---
 src/korin/core/public/templates/optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 57efdd5..04e3f3c 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -133,8 +133,9 @@ struct Optional
 		// Destroy existing object
 		reset();
 
-		engaged = true;
+		// If construction throws, there is no value
 		new (&storage.value) T{forward<ArgsT>(args)...};
+		engaged = true;
 	}
 
 	/**
-- 
2.43.0


From 2273f49424b76be13193f9839ccc37ee05faf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 81/81] fix: the axis extracted from no rotation is a number

---
 src/korin/core/public/math/quat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 86b2a58..165cd41 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -74,7 +74,10 @@ public:
 	{
 		// Rounding may push the cosine past its limits
 		float32 a = PlatformMath::acos(PlatformMath::max(-1.f, PlatformMath::min(1.f, this->w)));
-		float32 s = 1.f / PlatformMath::sin(a);
+		float32 s = PlatformMath::sin(a);
+
+		// No rotation has no axis
+		s = s != 0.f ? 1.f / s : 0.f;
 
 		outAngle = a * 2.f;
 		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
-- 
2.43.0

