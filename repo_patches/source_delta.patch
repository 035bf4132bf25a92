From bc34d3531fcaeb24531d5f837329000fc06c04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 01/45] fix: binary_search with a comparator tested the wrong
 direction and reported absent values as found

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..d71e60a 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -224,7 +224,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From 0cf6cea52d0845a71f84f8010d360c0f5bc05a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 02/45] fix: find_end missed a match at the start of the range

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index d71e60a..55103fd 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -297,7 +297,7 @@ template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryP
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
     ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
+    for (; first1 <= s; --s) {
 	ForwardIterator2 i = first2, j = s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
-- 
2.43.0


From 144fa5a82557c46b273e5d59535a0bbd5f1a682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 03/45] fix: replace_copy and replace_copy_if returned no value

---
 ualgo.h     | 1 +
 upredalgo.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index c95b699..c93d539 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
diff --git a/upredalgo.h b/upredalgo.h
index 55103fd..179c486 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From 4a1c43d019b5b6c5013d1edcf7e4591583b8da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 04/45] fix: copy_backward_fast copied wrong bytes when the
 head or tail was unaligned

---
 ualgobase.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..2fcacd0 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -142,6 +142,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     size_t nBytes (distance (first, last));
     movsb_dir_down();
     size_t nHeadBytes = uintptr_t(last) % 4;
+    nHeadBytes = min (nHeadBytes, nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
@@ -151,6 +152,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From fd14438fa240ebf1c03527e4120c0021e7b72956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 05/45] fix: fill_n16_fast and fill_n32_fast overran large
 blocks at low addresses

---
 ualgobase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 2fcacd0..07979a1 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -198,14 +198,14 @@ static inline void simd_block_fill_loop (uint8_t*& dest, size_t count)
 template <typename T>
 static inline void fill_n_fast (T* dest, size_t count, T v)
 {
-    size_t nHead = Align(uintptr_t(dest), MMX_ALIGN) - uintptr_t(dest) / sizeof(T);
+    size_t nHead = (Align(uintptr_t(dest), MMX_ALIGN) - uintptr_t(dest)) / sizeof(T);
     nHead = min (nHead, count);
     stosv (dest, nHead, v);
     count -= nHead;
     build_block (v);
     uint8_t* bdest = reinterpret_cast<uint8_t*>(dest);
     simd_block_fill_loop (bdest, count * sizeof(T) / MMX_BS);
-    count %= MMX_BS;
+    count %= MMX_BS / sizeof(T);
     dest = reinterpret_cast<T*>(bdest);
     stosv (dest, count, v);
 }
-- 
2.43.0


From 53133a5c355c98dd0f945f3bbd07039f8d394713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 06/45] fix: memblock::reserve allocated a tiny block when
 growing past 2GB

---
 memblock.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..e335ce1 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -82,9 +82,8 @@ void memblock::reserve (size_type newSize, bool bExact)
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
-    const size_t alignedSize (NextPow2 (newSize));
-    if (!bExact)
-	newSize = alignedSize;
+    if (!bExact && newSize <= size_type(UINT32_MAX)/2+1)	// NextPow2 is only defined up to this
+	newSize = NextPow2 (newSize);
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-- 
2.43.0


From 0ebf7aa7e5c541f6e9b3df93472d4c4991780953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 07/45] fix: memblock::reserve read one byte past the end of a
 linked block

---
 memblock.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index e335ce1..df650d9 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -87,8 +87,12 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+    if (!oldBlock & (cdata() != nullptr)) {
+	const size_type copied = min (size(), newSize);
+	copy_n (cdata(), copied, newBlock);
+	if (copied < newSize)
+	    newBlock[copied] = 0;	// a linked string must remain terminated
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From 7069516071a89c194309a252ca5611f54b00e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 08/45] fix: shrink_to_fit on a string cut off its terminating
 NUL

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index df650d9..c5e9886 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -102,10 +102,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newCapacity = size() + minimumFreeCapacity();
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newCapacity));
+    if (!newBlock && newCapacity)
+	throw bad_alloc (newCapacity);
+    _capacity = newCapacity;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From ca2b93ae92a6e5decf925ca9241e005c1b502646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 09/45] fix: string rfind, find_last_of and find_last_not_of
 read outside an empty string

---
 ustring.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..dd7e873 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -262,7 +262,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -302,7 +302,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -311,7 +311,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 86103126789a571627a25de45ad292ec5d2f634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 10/45] fix: string::rfind of a substring missed matches at the
 first two positions

---
 ustring.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index dd7e873..7118925 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -271,14 +271,12 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    if (s.empty())
+	return npos;
+    for (size_type i = min(size_type(pos),size())+1; i-- > s.size();)
+	if (memcmp (begin() + i - s.size(), s.begin(), s.size()) == 0)
+	    return i - s.size();
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From 4e6617acd8be32a21e152a0ec867990b27dc7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 11/45] fix: string::compare truncated the length difference to
 int

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 7118925..53685f9 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -114,7 +114,7 @@ int string::compare (const_iterator first1, const_iterator last1, const_iterator
 {
     assert (first1 <= last1 && (first2 <= last2 || !last2) && "Negative ranges result in memory allocation errors.");
     const size_type len1 = distance (first1, last1), len2 = distance (first2, last2);
-    const int rvbylen = sign (int(len1 - len2));
+    const int rvbylen = len1 < len2 ? -1 : len1 > len2;
     int rv = memcmp (first1, first2, min (len1, len2));
     return rv ? rv : rvbylen;
 }
-- 
2.43.0


From 64376b05df5eb637abdaa153ca63da663790cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 12/45] fix: memblock::reserve below the size of a linked block
 left size above capacity

---
 memblock.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memblock.cc b/memblock.cc
index c5e9886..bca4b30 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -81,6 +81,8 @@ void memblock::reserve (size_type newSize, bool bExact)
 {
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
+    if (is_linked())	// linked data is copied whole
+	newSize = max (newSize, size() + minimumFreeCapacity());
     pointer oldBlock (is_linked() ? nullptr : data());
     if (!bExact && newSize <= size_type(UINT32_MAX)/2+1)	// NextPow2 is only defined up to this
 	newSize = NextPow2 (newSize);
-- 
2.43.0


From a47bec95e034b2e12dcf45359a0f4222d95390af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 13/45] fix: string::replace with text of equal length wrote
 into linked storage

---
 ustring.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index 53685f9..f88d116 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -230,6 +230,11 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
 	rp = memblock::insert (rp, bti - bte);
+    else if (is_linked()) {	// copy-on-write, as erase and insert do
+	const uoff_t rpo = first - begin();
+	copy_link();
+	rp = iat (rpo);
+    }
     fill (rp, i1, distance(i1, i2), n);
     *end() = 0;
     return *this;
-- 
2.43.0


From f437692c590c2d7d5e467cac420ceaa58dbfac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 14/45] fix: string::insert of a string inserted it once per
 character

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..0123fc9 100644
--- a/ustring.h
+++ b/ustring.h
@@ -157,7 +157,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From 5fd36a26d280002f00f095144c076c4f21155325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 15/45] fix: string::format never returned when the capacity is
 2GB or more

---
 ustring.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index f88d116..73364e1 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -330,12 +330,13 @@ int string::vformat (const char* fmt, va_list args)
     #undef __va_copy
     #define __va_copy(x,y)
 #endif
-    int rv = size(), wcap;
+    int rv = size();
+    size_type wcap;
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
 	resize (rv);
-    } while (rv >= wcap);
+    } while (size_type(rv) >= wcap);
     return rv;
 }
 
-- 
2.43.0


From 8da98315784d6bdfbbf51b444c1c19fd923ec029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 16/45] fix: string::format of an empty text into an empty
 string never returned

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 73364e1..abcc201 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -336,7 +336,7 @@ int string::vformat (const char* fmt, va_list args)
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
 	resize (rv);
-    } while (size_type(rv) >= wcap);
+    } while (rv && size_type(rv) >= wcap);
     return rv;
 }
 
-- 
2.43.0


From 7faa72725d14953320a52af2319be88e6543e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 17/45] fix: set and multiset find compare with the container's
 ordering, not ==

---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 51220d4..2090f3d 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 55fb03b57e99b8bc552df65a42c95b0ba6fe9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 18/45] fix: set::insert with a hint and an rvalue did not
 compile

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 2090f3d..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From 2f42203641627c0cdeecf8398d30e2640d1ee79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 19/45] fix: UTF-8 encoding of values above 0x7FFFFFFF shifted
 past the word size and corrupted the header byte

---
 utf8.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..b92296f 100644
--- a/utf8.h
+++ b/utf8.h
@@ -183,10 +183,11 @@ utf8out_iterator<Iterator,WChar>& utf8out_iterator<Iterator,WChar>::operator= (W
     if (nBytes > 1) {
 	// Write the bits 6 bits at a time, except for the first one,
 	// which may be less than 6 bits.
+	const uint64_t b = uint32_t(v);	// Wide enough for the shifts of a 7 byte sequence.
 	wchar_t shift = nBytes * 6;
-	*_i++ = ((v >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
+	*_i++ = ((b >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
 	while (shift)
-	    *_i++ = ((v >> (shift -= 6)) & 0x3F) | 0x80;
+	    *_i++ = ((b >> (shift -= 6)) & 0x3F) | 0x80;
     } else	// If only one byte, there is no header.
 	*_i++ = v;
     return *this;
-- 
2.43.0


From c6de98d61584d8972437143148884e35721371ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 20/45] fix: distance between utf8in iterators counted a
 multibyte last character twice

---
 utf8.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index b92296f..31e8a03 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,8 +140,10 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
-	advance (first, Utf8SequenceBytes (*first));
+    for (Iterator first (last._i); first < _i; ++dist) {	// _i is on the last byte of the character
+	++first;
+	advance (first, Utf8SequenceBytes (*first) - 1);
+    }
     return dist;
 }
 
-- 
2.43.0


From 0f238c890e6f116d2b2bf17261fe409594d2b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 21/45] fix: atomic increments and decrements return the value
 of their own step

---
 uatomic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..4cecf6a 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,10 +67,10 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
-    inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
-    inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (void)	{ return add_fetch (1); }
+    inline T		operator-- (void)	{ return sub_fetch (1); }
     inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
     inline atomic&	operator-= (T v)	{ sub_fetch (v); return *this; }
     inline atomic&	operator&= (T v)	{ and_fetch (v); return *this; }
-- 
2.43.0


From f1ef62eef35e08145ce48352596264b7baf06049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 22/45] fix: shared_ptr copy assignment shares the assigned
 object

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..2592733 100644
--- a/umemory.h
+++ b/umemory.h
@@ -192,7 +192,7 @@ public:
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr t (p); swap (t); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From 1450267b609910d31f35360ef912aa59c27cd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 23/45] fix: shared_ptr::use_count reads the reference count

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 2592733..e8f0bdf 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,7 +178,7 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
-- 
2.43.0


From ff7fd50d2830c9cb654213793bcc6b335f9f8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 24/45] fix: istream::read_strz must refuse an unterminated
 string instead of reading past the end

---
 mistream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..8ca690e 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,8 +48,10 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
+    if (zp == end()) {
+	verify_remaining ("read", "nul-terminated string", remaining() + 1);
+	return;
+    }
     const size_type strl = distance (ipos(), zp);
     str.assign (ipos(), strl);
     _pos += strl + 1;
-- 
2.43.0


From bb3b42422b31e96ddf264d5db6bf2a63027fa586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 25/45] fix: string::read must not interpret an uninitialised
 byte when the stream is empty

---
 ustring.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ustring.cc b/ustring.cc
index abcc201..7266ac3 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -360,6 +360,7 @@ size_t string::stream_size (void) const noexcept
 void string::read (istream& is)
 {
     char szbuf [8];
+    if (!is.verify_remaining ("read", "ustl::string", 1)) return;
     is >> szbuf[0];
     size_t szsz (Utf8SequenceBytes (szbuf[0]) - 1), n = 0;
     if (!is.verify_remaining ("read", "ustl::string", szsz)) return;
-- 
2.43.0


From c1c8f00faf642661f72e7a3896b0d8c6aaa63da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 26/45] fix: FirstBit must not rely on what bsr leaves in its
 destination for a zero source

---
 uutility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uutility.h b/uutility.h
index 3c13f29..e6d1e0c 100644
--- a/uutility.h
+++ b/uutility.h
@@ -248,7 +248,7 @@ inline uoff_t FirstBit (uint32_t v, uoff_t nbv)
 {
     uoff_t n = nbv;
 #if __x86__
-    if (!__builtin_constant_p(v)) asm ("bsr\t%1, %k0":"+r,r"(n):"r,m"(v)); else
+    if (!__builtin_constant_p(v)) { if (v) asm ("bsr\t%1, %k0":"+r,r"(n):"r,m"(v)); } else
 #endif
 #if __GNUC__
     if (v) n = 31 - __builtin_clz(v);
@@ -262,7 +262,7 @@ inline uoff_t FirstBit (uint64_t v, uoff_t nbv)
 {
     uoff_t n = nbv;
 #if __x86_64__
-    if (!__builtin_constant_p(v)) asm ("bsr\t%1, %0":"+r,r"(n):"r,m"(v)); else
+    if (!__builtin_constant_p(v)) { if (v) asm ("bsr\t%1, %0":"+r,r"(n):"r,m"(v)); } else
 #endif
 #if __GNUC__ && SIZE_OF_LONG >= 8
     if (v) n = 63 - __builtin_clzl(v);
-- 
2.43.0


From c8aebbf9ccf89edcaa1eb8738eeeb3e85ddc74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 27/45] fix: Rol and Ror by zero must not shift by the full
 width

---
 uutility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uutility.h b/uutility.h
index e6d1e0c..c76f6e9 100644
--- a/uutility.h
+++ b/uutility.h
@@ -290,14 +290,14 @@ inline uint32_t NextPow2 (uint32_t v)
 template <typename T>
 inline constexpr T Rol (T v, size_t n)
 {
-    return (v << n) | (v >> (BitsInType(T)-n));
+    return (v << n) | (v >> ((BitsInType(T)-n) % BitsInType(T)));
 }
 
 /// Bitwise rotate value right
 template <typename T>
 inline constexpr T Ror (T v, size_t n)
 {
-    return (v >> n) | (v << (BitsInType(T)-n));
+    return (v >> n) | (v << ((BitsInType(T)-n) % BitsInType(T)));
 }
 
 /// \brief This template is to be used for dereferencing a type-punned pointer without a warning.
-- 
2.43.0


From 499a64708489e1a55fe7b38c806c20484c118f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 28/45] fix: NextPow2 must not shift by the full width for
 values without a next power

---
 uutility.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/uutility.h b/uutility.h
index c76f6e9..c1857e7 100644
--- a/uutility.h
+++ b/uutility.h
@@ -275,15 +275,12 @@ inline uoff_t FirstBit (uint64_t v, uoff_t nbv)
 }
 
 /// Returns the next power of 2 >= \p v.
-/// Values larger than UINT32_MAX/2 will return 2^0
+/// Values larger than UINT32_MAX/2+1, which have none, will return 2^0
 inline uint32_t NextPow2 (uint32_t v)
 {
-    uint32_t r = v-1;
-#if __x86__
-    if (!__builtin_constant_p(r)) asm("bsr\t%0, %0":"+r"(r)); else
-#endif
-    { r = FirstBit(r,r); if (r >= BitsInType(r)-1) r = uint32_t(-1); }
-    return 1<<(1+r);
+    if (!v || v > UINT32_MAX/2+1)
+	return 1;
+    return uint32_t(1)<<(1+FirstBit(v-1,0));
 }
 
 /// Bitwise rotate value left
-- 
2.43.0


From 6dc921b8dcfa9746a7341e0ea9ab9f4b05cbe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:08 +0000
Subject: [PATCH 29/45] fix: partial_sum must read its previous result before
 advancing, add in order, and return the end of the output

---
 unumeric.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..11338f5 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -71,9 +71,9 @@ template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
     if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
+	*result++ = *first++;
+    for (; first < last; ++first, ++result)
+	*result = *(result-1) + *first;
     return result;
 }
 
@@ -84,9 +84,9 @@ template <typename InputIterator, typename OutputIterator, typename BinaryOperat
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
     if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
+	*result++ = *first++;
+    for (; first < last; ++first, ++result)
+	*result = sumOp (*(result-1), *first);
     return result;
 }
 
-- 
2.43.0


From 718960ac5917dec777fb1fcaf5f69e9fb2109f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:11 +0000
Subject: [PATCH 30/45] fix: adjacent_difference must advance its input

---
 unumeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index 11338f5..4fbedc8 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -98,7 +98,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = *first - *(first - 1);
     return result;
 }
@@ -111,7 +111,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = differenceOp (*first, *(first - 1));
     return result;
 }
-- 
2.43.0


From 558e61b279ba17ee1caf12629f21386ab7436c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:54 +0000
Subject: [PATCH 31/45] fix: construct_at from an rvalue (and with it
 uninitialized_move and uninitialized_value_construct) must compile

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index e8f0bdf..455587c 100644
--- a/umemory.h
+++ b/umemory.h
@@ -321,7 +321,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move(value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From 02c48710c8ea3f028c0f68182d81ffb9da1a36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 32/45] fix: declare xmm1 as clobbered by the SSE tuple
 operations

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 74d97a1..f05c517 100644
--- a/simd.h
+++ b/simd.h
@@ -389,7 +389,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From ff81b173548e308607c5c29ed67bffac75892e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 33/45] fix: the SSE vector transform must broadcast the second
 coordinate

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From 01f18ef48a0a5a09f8d96b828f76177d5865c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 34/45] fix: array operators with an initializer list must not
 read past its end

---
 uarray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/uarray.h b/uarray.h
index aa89cbc..0aa82a9 100644
--- a/uarray.h
+++ b/uarray.h
@@ -30,14 +30,14 @@ public:
 public:
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] += v.begin()[i]; return *this; }
-    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] -= v.begin()[i]; return *this; }
-    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] *= v.begin()[i]; return *this; }
-    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] /= v.begin()[i]; return *this; }
-    constexpr auto		operator+ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] + v.begin()[i]; return result; }
-    constexpr auto		operator- (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] - v.begin()[i]; return result; }
-    constexpr auto		operator* (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] * v.begin()[i]; return result; }
-    constexpr auto		operator/ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] / v.begin()[i]; return result; }
+    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] += v.begin()[i]; return *this; }
+    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] -= v.begin()[i]; return *this; }
+    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] *= v.begin()[i]; return *this; }
+    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] /= v.begin()[i]; return *this; }
+    constexpr auto		operator+ (initlist_t v) const		{ array result (*this); result += v; return result; }
+    constexpr auto		operator- (initlist_t v) const		{ array result (*this); result -= v; return result; }
+    constexpr auto		operator* (initlist_t v) const		{ array result (*this); result *= v; return result; }
+    constexpr auto		operator/ (initlist_t v) const		{ array result (*this); result /= v; return result; }
 #else
     inline			array (void)				{ fill_n (_v, N, T()); }
     template <typename T2>
-- 
2.43.0


From b1fcf55cbf60f12a8a1602b85f565ed96bd1c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 35/45] fix: difference of reverse, move and index iterators
 had the wrong sign

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..7401114 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
@@ -310,7 +310,7 @@ public:
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From 3ecec9e3aac98c6d36ad17e8d8cc03ba49ab4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:16 +0000
Subject: [PATCH 36/45] fix: move_iterator + n and - n stepped the wrong way

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 7401114..dd1e4cb 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -307,8 +307,8 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
-- 
2.43.0


From 354d6965adb20cd0f6fd96f11cc5970e44740c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 37/45] fix: dereferencing a move_iterator did not compile for
 non-ustl element types

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index dd1e4cb..c5cfa62 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return *(*this + n); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From 810d46e7088331673a4ff377a32dbfb752358137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 38/45] fix: post-incremented insert_iterator kept a position
 invalidated by the insertion

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index c5cfa62..dd07a45 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++ _ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From f8cf3e9be4e04e61b4e8cc947eb7f149997bf87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:31 +0000
Subject: [PATCH 39/45] fix: three-operand packed operations did not compile

---
 simd.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simd.h b/simd.h
index f05c517..a51529e 100644
--- a/simd.h
+++ b/simd.h
@@ -46,15 +46,6 @@ inline void packop (const Ctr& op1, Ctr& op2, BinaryOperation op)
 	*i2 = op (*i2, *i1);
 }
 
-/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
-template <typename Ctr, typename BinaryOperation>
-inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
-{
-    assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    op (op2, result);
-}
-
 /// Copies \p op1 into \p result.
 template <typename Ctr>
 inline void passign (const Ctr& op1, Ctr& result)
@@ -65,6 +56,15 @@ inline void passign (const Ctr& op1, Ctr& result)
 	*d++ = *s;
 }
 
+/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
+template <typename Ctr, typename BinaryOperation>
+inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
+{
+    assert (op1.size() <= op2.size() && op1.size() <= result.size());
+    passign (op1, result);
+    packop (op2, result, op);
+}
+
 /// Copies \p result.size() elements from \p op1 to \p result.
 template <typename Ctr>
 inline void ipassign (typename Ctr::const_iterator op1, Ctr& result)
-- 
2.43.0


From c34e38348081296001d52633b54cf141cd2eae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 40/45] fix: average of signed tuples used the unsigned average
 instruction

---
 simd.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simd.h b/simd.h
index a51529e..8be7295 100644
--- a/simd.h
+++ b/simd.h
@@ -343,9 +343,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From 60b783925fca8049e32a37a7793c8d387e11f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 41/45] fix: saturating tuple operations wrapped around for
 negative operands

---
 simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index 8be7295..3ef5328 100644
--- a/simd.h
+++ b/simd.h
@@ -84,8 +84,8 @@ inline void pconvert (const Ctr1& op1, Ctr2& op2, ConvertFunction f)
 }
 
 // Functionoids for SIMD operations, like saturation arithmetic, shifts, etc.
-STD_BINARY_FUNCTOR (fpadds, T, ((b > numeric_limits<T>::max() - a) ? numeric_limits<T>::max() : a + b))
-STD_BINARY_FUNCTOR (fpsubs, T, ((a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : a - b))
+STD_BINARY_FUNCTOR (fpadds, T, ((b > T(0) && a > numeric_limits<T>::max() - b) ? numeric_limits<T>::max() : (b < T(0) && a < numeric_limits<T>::min() - b) ? numeric_limits<T>::min() : a + b))
+STD_BINARY_FUNCTOR (fpsubs, T, ((b > T(0) && a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : (b < T(0) && a > numeric_limits<T>::max() + b) ? numeric_limits<T>::max() : a - b))
 STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
-- 
2.43.0


From 7039e62055132d662ced32ddf50edbbdfb6d4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:07 +0000
Subject: [PATCH 42/45] fix: priority_queue pop and swap ignored or could not
 exchange the comparator, and adopted containers were not made heaps

---
 uheap.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..b5beb96 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,18 +135,20 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v)
+				    : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)
+				    : _v(move(v)), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From c80c715460d18553f857e271d046a6f7f8604b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:09 +0000
Subject: [PATCH 43/45] fix: copying a queue brought back popped elements, and
 queues could not be swapped or move-assigned

---
 uqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uqueue.h b/uqueue.h
index 5701e2c..a38fe36 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
@@ -38,7 +38,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 978b89fc5c9731399180a26943da9f140782d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:10 +0000
Subject: [PATCH 44/45] fix: stacks could not be swapped or move-assigned

---
 ustack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustack.h b/ustack.h
index 0599842..5d62502 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,7 +31,7 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 018965d968cfb5b415d75fa07f397857f81996a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:02 +0000
Subject: [PATCH 45/45] fix: bitset range set left bits of the old value in the
 range

---
 ubitset.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..55dc3e6 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,14 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
 			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    value_type& br (BitRef (first));
+			    const value_type mask (first < last ? BitMask(value_type,distance(first,last)) : 0);
+			    br = (br & ~(mask << (first % s_WordBits))) | (v << (first % s_WordBits));
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
-- 
2.43.0

