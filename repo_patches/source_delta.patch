From aac69a4ed5f2c345dadcb0ee62cdb7e53e2897c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 001/159] fix: copy_backward_fast must not copy more head bytes
 than requested

---
 ualgobase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..a9c4697 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -141,7 +141,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     prefetch (result, 1, 0);
     size_t nBytes (distance (first, last));
     movsb_dir_down();
-    size_t nHeadBytes = uintptr_t(last) % 4;
+    size_t nHeadBytes = min (size_t(uintptr_t(last) % 4), nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
-- 
2.43.0


From 685da56de6196c3972f9a2859786487401b80951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 002/159] fix: copy_backward_fast copied the tail from the
 wrong address

---
 ualgobase.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ualgobase.cc b/ualgobase.cc
index a9c4697..efa43c7 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -151,6 +151,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From ab581f29bae78d791780c5831e8380bcc23e54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 003/159] fix: vector comparison must compare elements, not
 their bytes

---
 uvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 4e33096..297657a 100644
--- a/uvector.h
+++ b/uvector.h
@@ -43,7 +43,7 @@ public:
 				vector (const_iterator i1, const_iterator i2);
     inline			~vector (void) noexcept;
     inline const vector&	operator= (const vector& v);
-    inline bool			operator== (const vector& v) const	{ return _data == v._data; }
+    inline bool			operator== (const vector& v) const	{ return size() == v.size() && ::ustl::equal (begin(), end(), v.begin()); }
     inline			operator cmemlink (void) const	{ return cmemlink (_data); }
     inline			operator cmemlink (void)	{ return cmemlink (_data); }
     inline			operator memlink (void)		{ return memlink (_data); }
-- 
2.43.0


From 868e4489ad042a212c16eea4c17b8dba7168c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 004/159] fix: stack::swap and move assignment must swap the
 storage

---
 ustack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustack.h b/ustack.h
index 0599842..5d62502 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,7 +31,7 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 000a9030530ab5452667c00a233370f7ae780558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 005/159] fix: construct_at from an rvalue did not compile

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..3dc4d89 100644
--- a/umemory.h
+++ b/umemory.h
@@ -321,7 +321,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move(value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From 1f658cc596d63a86957758899f86d244ae186164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 006/159] fix: queue copy construction must not bring back
 popped elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 5701e2c..9022f53 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
-- 
2.43.0


From acc55e60e28941726f317ce29aceed314893e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 007/159] fix: queue::swap and move assignment did not compile

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 9022f53..a38fe36 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -38,7 +38,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 221d203501fb0273b229309e8422bc8005538b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 008/159] fix: priority_queue::pop must use the queue's
 ordering

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..34b1a53 100644
--- a/uheap.h
+++ b/uheap.h
@@ -142,7 +142,7 @@ public:
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-- 
2.43.0


From 9d6ccd8b1c1d0e484e0401a9138a7730de549792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 009/159] fix: priority_queue::swap and move assignment did not
 compile

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 34b1a53..a17e544 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,7 +143,7 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
-- 
2.43.0


From 5c1dc920839b4d16117df62b2175b7413be1188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 010/159] fix: priority_queue made from a container must order
 it

---
 uheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index a17e544..2a3ee67 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,7 +135,7 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
@@ -146,7 +146,7 @@ public:
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From 0b7c9c516e223aa6ea309ae26b5267c927ddf065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 011/159] fix: set::insert with a hint did not compile for
 rvalues

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 51220d4..41b3c4b 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From c2a7280e517b07074cf7e62329b39340939f421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 012/159] fix: set::find must compare with the set's ordering

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 41b3c4b..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 34443d378dc22704a763a83373fad950e36dc951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 013/159] fix: multiset::find must compare with the set's
 ordering

---
 umultiset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From c817bdd6d56c33ee0e0eec85748eb675da210a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 014/159] fix: shared_ptr copy assignment did not compile and
 could release its own object

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 3dc4d89..3d99053 100644
--- a/umemory.h
+++ b/umemory.h
@@ -192,7 +192,7 @@ public:
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr np (p); swap (np); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From d7df561322a02ae4a3aff582588d466a1fb2414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 015/159] fix: string::rfind of a character must not read
 outside an empty string

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..add42b3 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -262,7 +262,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (at(i) == c)
 	    return i;
     return npos;
-- 
2.43.0


From 0498373f5266ed3ffaa7f4df36bb4ecd416c7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 016/159] fix: string::rfind of a string missed matches at the
 start

---
 ustring.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index add42b3..a874538 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -271,14 +271,12 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    if (s.size() > size())
+	return npos;
+    for (size_type i = min (size_type(pos), size()-s.size())+1; i-- > 0;)
+	if (0 == memcmp (begin()+i, s.begin(), s.size()))
+	    return i;
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From 5f0a278b108d1d6e01326af485961df4fcb5f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 017/159] fix: string::find_last_of must not read outside an
 empty string

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index a874538..cf8f87d 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -300,7 +300,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
-- 
2.43.0


From c945db6fddd5e2ce602c987b1960564e6e46518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 018/159] fix: string::find_last_not_of must not read outside
 an empty string

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index cf8f87d..61e924e 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -309,7 +309,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 60240799f493226efb5d7dda0da56dd9d61ef7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 019/159] fix: string::format of empty text into an unallocated
 string never returned

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 61e924e..1ec6709 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -330,7 +330,7 @@ int string::vformat (const char* fmt, va_list args)
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
 	resize (rv);
-    } while (rv >= wcap);
+    } while (rv && rv >= wcap);
     return rv;
 }
 
-- 
2.43.0


From c261e49063cdd391ae275ff9290a1c7f5206a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 020/159] fix: copying linked memory read one byte past its end

---
 memblock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..e764d55 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -89,7 +89,7 @@ void memblock::reserve (size_type newSize, bool bExact)
     if (!newBlock)
 	throw bad_alloc (newSize);
     if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+	copy_n (cdata(), min (size() + minimumFreeCapacity(), newSize), newBlock);
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From d3420c15210ccb99ed71e3af4cf84ed538d682bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 021/159] fix: reserving more than 2G allocated a smaller block
 than asked for

---
 memblock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index e764d55..de76c52 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -84,7 +84,7 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-	newSize = alignedSize;
+	newSize = max (newSize, alignedSize);
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-- 
2.43.0


From d49ee34df84877930528712ebbd33095a527f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 022/159] fix: shrinking a string must keep its terminator

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index de76c52..8ba5a94 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -99,10 +99,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newSize = size() + minimumFreeCapacity();
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newSize));
+    if (!newBlock && newSize)
+	throw bad_alloc (newSize);
+    _capacity = newSize;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 6db64aae83c6e083772b6a97a52f087de6d02f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 023/159] fix: reading a file into a string must terminate it

---
 memblock.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memblock.cc b/memblock.cc
index 8ba5a94..2241e28 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -152,6 +152,7 @@ void memblock::read_file (const char* filename)
     f.read (data(), fsize);
     f.close();
     resize (fsize);
+    fill_n (end(), minimumFreeCapacity(), '\0');
 }
 
 } // namespace ustl
-- 
2.43.0


From 5a53c2d77df201f3665e90692df7bd6a1617a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 024/159] fix: replacing part of a linked string by text of the
 same length overwrote the source

---
 ustring.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 1ec6709..0af4f78 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -225,7 +225,9 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
     assert (first >= begin() && first <= end() && last >= first && last <= end());
     assert ((i1 < begin() || i1 >= end() || abs_distance(i1,i2) * n + size() < capacity()) && "Replacement by self can not autoresize");
     const size_type bte = distance(first, last), bti = distance(i1, i2) * n;
-    memblock::const_iterator rp = static_cast<memblock::const_iterator>(first);
+    const uoff_t rpo = distance (const_iterator(begin()), first);
+    copy_link();	// copy-on-write
+    memblock::const_iterator rp = memblock::iat (rpo);
     if (bti < bte)
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
-- 
2.43.0


From 3289fe10add5712c8a459e7ce88793ce012d200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 025/159] fix: a moved-from string must remain a terminated
 empty string

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..2f55a68 100644
--- a/ustring.h
+++ b/ustring.h
@@ -218,7 +218,7 @@ public:
     static hashvalue_t		hash (const char* f1, const char* l1) noexcept;
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline			string (string&& v)		: memblock (move(v)) {}
+    inline			string (string&& v)		: string() { swap (v); }
     inline			string (initlist_t v)		: memblock() { assign (v.begin(), v.size()); }
     inline string&		assign (string&& v)		{ swap (v); return *this; }
     inline string&		assign (initlist_t v)		{ return assign (v.begin(), v.size()); }
-- 
2.43.0


From 4d77244248f6f8838315ad12244a916a82ea93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 026/159] fix: utf8out_iterator wrote wrong bytes for values
 above 0x7fffffff

---
 utf8.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..7fb10af 100644
--- a/utf8.h
+++ b/utf8.h
@@ -184,9 +184,10 @@ utf8out_iterator<Iterator,WChar>& utf8out_iterator<Iterator,WChar>::operator= (W
 	// Write the bits 6 bits at a time, except for the first one,
 	// which may be less than 6 bits.
 	wchar_t shift = nBytes * 6;
-	*_i++ = ((v >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
+	const uint64_t bits = uint32_t(v);	// 7 byte sequences shift by more than 32
+	*_i++ = ((bits >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
 	while (shift)
-	    *_i++ = ((v >> (shift -= 6)) & 0x3F) | 0x80;
+	    *_i++ = ((bits >> (shift -= 6)) & 0x3F) | 0x80;
     } else	// If only one byte, there is no header.
 	*_i++ = v;
     return *this;
-- 
2.43.0


From 0e5436640ff8dcab2b9c8ff79ee94517fbaef206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 027/159] fix: string::insert of a string inserted it as many
 times as it has characters

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index 2f55a68..e5bf816 100644
--- a/ustring.h
+++ b/ustring.h
@@ -157,7 +157,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From 18f8c4ef7d4556d968a3845bc35c299d13e27a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 028/159] fix: reserving less than the size of a linked block
 left it short

---
 memblock.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memblock.cc b/memblock.cc
index 2241e28..56a5df9 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -81,6 +81,7 @@ void memblock::reserve (size_type newSize, bool bExact)
 {
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
+    newSize = max (newSize, size() + minimumFreeCapacity());
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-- 
2.43.0


From 6bbac4c3233f5f403d20c5f3c40cb9249fd2ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 029/159] fix: distance between UTF-8 iterators counted a
 multibyte last character twice

---
 utf8.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb10af..05c6590 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,8 +140,10 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
-	advance (first, Utf8SequenceBytes (*first));
+    for (Iterator first (last._i); first < _i; ++dist) {
+	++first;	// _i is at the last byte of its character
+	advance (first, Utf8SequenceBytes (*first) - 1);
+    }
     return dist;
 }
 
-- 
2.43.0


From ded187d6a2e39226efa44e8258a71249aadb5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 030/159] fix: string::format must not corrupt the string when
 the text can not be printed

---
 ustring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 0af4f78..a873815 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -331,8 +331,8 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
-	resize (rv);
-    } while (rv && rv >= wcap);
+	resize (max (rv, 0));
+    } while (rv > 0 && rv >= wcap);
     return rv;
 }
 
-- 
2.43.0


From 7136b6ecbac5f2c60a6009038dea02f9624a70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 031/159] fix: string <= and >= a character pointer compared
 addresses

---
 ustring.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.h b/ustring.h
index e5bf816..126b658 100644
--- a/ustring.h
+++ b/ustring.h
@@ -154,6 +154,8 @@ public:
     inline bool			operator< (value_type c) const		{ return 0 > compare (begin(), end(), &c, &c + 1); }
     inline bool			operator< (uvalue_type c) const		{ return operator< (value_type(c)); }
     inline bool			operator> (const_pointer s) const	{ return 0 < compare (s); }
+    inline bool			operator<= (const_pointer s) const	{ return 0 >= compare (s); }
+    inline bool			operator>= (const_pointer s) const	{ return 0 <= compare (s); }
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-- 
2.43.0


From 3f790f88ca4a6705dcfe28f25d4d622948224be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 032/159] fix: string::find of the first characters of a longer
 text read past them

---
 ustring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index a873815..06964d7 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -250,9 +250,9 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
     if (s.empty() || s.size() > size() - pos)
 	return npos;
     pos_type endi = s.size() - 1;
-    value_type endchar = s[endi];
+    value_type endchar = s.at(endi);
     pos_type lastPos = endi;
-    while (lastPos-- && s[lastPos] != endchar) {}
+    while (lastPos-- && s.at(lastPos) != endchar) {}
     const size_type skip = endi - lastPos;
     const_iterator i = iat(pos) + endi;
     for (; i < end() && (i = ::ustl::find (i, end(), endchar)) < end(); i += skip)
-- 
2.43.0


From 3b597b487dae6594e7d97a19944087c09617c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 033/159] fix: a multiset could not be passed by value or
 swapped, its copy constructors being explicit

---
 umultiset.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index 1923d2f..b1ace1f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -35,7 +35,7 @@ public:
 public:
     inline			multiset (void)				: base_class() {}
     inline explicit		multiset (size_type n)			: base_class (n) {}
-    inline explicit		multiset (rcself_t v)			: base_class (v) {}
+    inline			multiset (rcself_t v)			: base_class (v) {}
     inline			multiset (const_iterator i1, const_iterator i2) : base_class() { insert (i1, i2); }
     inline rcself_t		operator= (rcself_t v)			{ base_class::operator= (v); return *this; }
     inline size_type		size (void) const			{ return base_class::size(); }
@@ -68,7 +68,7 @@ public:
     inline void			swap (multiset& v)			{ base_class::swap (v); }
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline explicit		multiset (multiset&& v)			: base_class (move(v)) {}
+    inline			multiset (multiset&& v)			: base_class (move(v)) {}
     inline			multiset (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline multiset&		operator= (multiset&& v)		{ base_class::operator= (move(v)); return *this; }
     inline iterator		insert (T&& v)				{ return base_class::insert (upper_bound(v), move(v)); }
-- 
2.43.0


From 031848b945bb3b6a63e288caa5291cb7c81a5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 034/159] fix: queues with equal elements compared unequal
 after pop

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index a38fe36..b54ea30 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -39,7 +39,7 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    inline bool			operator== (const queue& s) const	{ return size() == s.size() && ::ustl::equal (_storage.begin()+_front, _storage.end(), s._storage.begin()+s._front); }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From c6457587447470635045a1479c79f50934b501ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 035/159] fix: lists could not be assigned

---
 ulist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ulist.h b/ulist.h
index a911529..3cbc03a 100644
--- a/ulist.h
+++ b/ulist.h
@@ -48,6 +48,7 @@ public:
 #if HAVE_CPP11
     inline			list (list&& v)			: vector<T> (move(v)) {}
     inline			list (std::initializer_list<T> v) : vector<T>(v) {}
+    inline list&		operator= (const list& v)	{ vector<T>::operator= (v); return *this; }
     inline list&		operator= (list&& v)		{ vector<T>::operator= (move(v)); return *this; }
     template <typename... Args>
     inline void			emplace_front (Args&&... args)	{ vector<T>::emplace (begin(), forward<Args>(args)...); }
-- 
2.43.0


From c0b49acee561c90df923c67fdc25a96a62de74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 036/159] fix: stacks could not be assigned or passed by value

---
 ustack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ustack.h b/ustack.h
index 5d62502..abf2f76 100644
--- a/ustack.h
+++ b/ustack.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			stack (void)			: _storage () { }
     explicit inline		stack (const container_type& s)	: _storage (s) { }
-    explicit inline		stack (const stack& s)		: _storage (s._storage) { }
+    inline			stack (const stack& s)		: _storage (s._storage) { }
     inline bool			empty (void) const		{ return _storage.empty(); }
     inline size_type		size (void) const		{ return _storage.size(); }
     inline reference		top (void)			{ return _storage.back(); }
@@ -37,6 +37,7 @@ public:
 #if HAVE_CPP11
     inline			stack (stack&& v)		: _storage(move(v._storage)) {}
     inline			stack (container_type&& s)	: _storage(move(s)) {}
+    inline stack&		operator= (const stack& v)	{ _storage = v._storage; return *this; }
     inline stack&		operator= (stack&& v)		{ swap (v); return *this; }
     template <typename... Args>
     inline void			emplace (Args&&... args)	{ _storage.emplace_back (forward<Args>(args)...); }
-- 
2.43.0


From 7d013cba5b73278b0c4b483ad6540863e679c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 037/159] fix: queues could not be assigned or passed by value

---
 uqueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index b54ea30..029508f 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
+    inline			queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
@@ -44,6 +44,7 @@ public:
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
     inline			queue (container_type&& s)	: _storage(move(s)),_front(0) {}
+    inline queue&		operator= (const queue& v)	{ _storage = v._storage; _front = v._front; return *this; }
     inline queue&		operator= (queue&& v)		{ swap (v); return *this; }
     template <typename... Args>
     inline void			emplace (Args&&... args)	{ _storage.emplace_back (forward<Args>(args)...); }
-- 
2.43.0


From 531d0790a270de95fc5e5458fe76d96787d7ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 038/159] fix: merging a list left the elements in the list
 merged from

---
 ulist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ulist.h b/ulist.h
index 3cbc03a..894e07b 100644
--- a/ulist.h
+++ b/ulist.h
@@ -62,6 +62,7 @@ void list<T>::merge (list& l)
 {
     this->insert_space (begin(), l.size());
     ::ustl::merge (this->iat(l.size()), end(), l.begin(), l.end(), begin());
+    l.clear();
 }
 
 /// Moves the range [first, last) from \p l to this list at \p ip.
-- 
2.43.0


From e07121ce0316d8cff5100d18257bad1b7befd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 039/159] fix: replace_copy did not return the end of the
 result

---
 ualgo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ualgo.h b/ualgo.h
index c95b699..c93d539 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
-- 
2.43.0


From 7797e2f073f0e826e9903ec441227f68b229a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 040/159] fix: replace_copy_if did not return the end of the
 result

---
 upredalgo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..242de25 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From dd1a500fd3d753a4ca89a8fb00a3f0df5c9832f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 041/159] fix: binary_search with a comparator found values
 that are not there

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 242de25..791f531 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -225,7 +225,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From 96adcb6308b2d5e05289095ec3a83a902e15990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 042/159] fix: find_end missed a match at the start and
 searched before the range

---
 upredalgo.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/upredalgo.h b/upredalgo.h
index 791f531..b9b7727 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -297,14 +297,17 @@ constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 las
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
-    ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
-	ForwardIterator2 i = first2, j = s;
+    if (distance(first1, last1) < distance(first2, last2))
+	return last1;
+    for (ForwardIterator1 s = last1 - distance(first2, last2);; --s) {
+	ForwardIterator2 i = first2;
+	ForwardIterator1 j = s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
 	    return s;
+	if (s == first1)
+	    return last1;
     }
-    return last1;
 }
 
 /// \brief Searches for the first occurence of \p count \p values in [first, last)
-- 
2.43.0


From 2ee66b5e1bd6da06d13f590d8843dd4e00d80061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 043/159] fix: search_n of no elements must find them at the
 start

---
 upredalgo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index b9b7727..a620562 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -316,6 +316,8 @@ constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 l
 template <typename Iterator, typename T, typename BinaryPredicate>
 constexpr Iterator search_n (Iterator first, Iterator last, size_t count, const T& value, BinaryPredicate comp)
 {
+    if (!count)
+	return first;
     size_t n = 0;
     for (; first != last; ++first) {
 	if (!comp (*first, value))
-- 
2.43.0


From b28a22c7b541631fe719eec9ab341a3b1f0af407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 044/159] fix: minmax of equal arguments returned them swapped

---
 ualgo.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index c93d539..5e0e2d4 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -639,13 +639,13 @@ inline constexpr ForwardIterator min_element (ForwardIterator first, ForwardIter
 /// Returns min,max pair of the argument
 template <typename T>
 inline constexpr auto minmax (const T& a, const T& b)
-    { return a < b ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
+    { return b < a ? make_pair<const T&,const T&>(b,a) : make_pair<const T&,const T&>(a,b); }
 template <typename T>
 inline constexpr auto minmax (T& a, T& b)
-    { return a < b ? make_pair<T&,T&>(a,b) : make_pair<T&,T&>(b,a); }
+    { return b < a ? make_pair<T&,T&>(b,a) : make_pair<T&,T&>(a,b); }
 template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
-    { return comp(a,b) ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
+    { return comp(b,a) ? make_pair<const T&,const T&>(b,a) : make_pair<const T&,const T&>(a,b); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
 template <typename T, typename Compare> constexpr void minmax (const T& a, const T& b, Compare comp) = delete;
 
-- 
2.43.0


From bac61a1272c229e733df6f42627d66a95a8ab92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 045/159] fix: minmax with a comparator could not be called

---
 ualgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgo.h b/ualgo.h
index 5e0e2d4..3a36413 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -647,7 +647,7 @@ template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
     { return comp(b,a) ? make_pair<const T&,const T&>(b,a) : make_pair<const T&,const T&>(a,b); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
-template <typename T, typename Compare> constexpr void minmax (const T& a, const T& b, Compare comp) = delete;
+template <typename T, typename Compare> constexpr void minmax (const T&& a, const T&& b, Compare comp) = delete;
 
 template <typename T>
 constexpr auto minmax (std::initializer_list<T> l)
-- 
2.43.0


From 0d5ca8d9cb826353c81eba55c3553e90c839afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 046/159] fix: merge must take equal elements from the first
 range first

---
 ualgo.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 3a36413..1a95fdd 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -241,10 +241,10 @@ OutputIterator merge (InputIterator1 first1, InputIterator1 last1,
 		      InputIterator2 first2, InputIterator2 last2, OutputIterator result)
 {
     for (; first1 != last1 && first2 != last2; ++result) {
-	if (*first1 < *first2)
-	    *result = *first1++;
-	else
+	if (*first2 < *first1)
 	    *result = *first2++;
+	else
+	    *result = *first1++;
     }
     if (first1 < last1)
 	return copy (first1, last1, result);
-- 
2.43.0


From 0876fc66416d2a00f37be3189285d3c43e16989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 047/159] fix: inplace_merge must keep equal elements of the
 first range first

---
 ualgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgo.h b/ualgo.h
index 1a95fdd..a84c6ce 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -259,7 +259,7 @@ template <typename InputIterator>
 constexpr void inplace_merge (InputIterator first, InputIterator middle, InputIterator last)
 {
     for (; middle != last; ++first) {
-	while (*first < *middle)
+	while (first != middle && !(*middle < *first))
 	    ++ first;
 	reverse (first, middle);
 	reverse (first, ++middle);
-- 
2.43.0


From 6a98665ed6c3bc985f156bdb50843cdc041b2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 048/159] fix: rotate must return the new position of the first
 element

---
 ualgo.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index a84c6ce..b4296a2 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -205,13 +205,19 @@ inline constexpr OutputIterator reverse_copy (BidirectionalIterator first, Bidir
 template <typename ForwardIterator>
 constexpr ForwardIterator rotate (ForwardIterator first, ForwardIterator middle, ForwardIterator last)
 {
-    if (first == middle || middle == last)
+    if (first == middle)
+	return last;
+    if (middle == last)
 	return first;
     reverse (first, middle);
     reverse (middle, last);
     for (;first != middle && middle != last; ++first)
 	iter_swap (first, --last);
-    reverse (first, (first == middle ? last : middle));
+    if (first == middle) {
+	reverse (middle, last);
+	return last;
+    }
+    reverse (first, middle);
     return first;
 }
 
@@ -220,7 +226,7 @@ template <typename T>
 inline T* rotate (T* first, T* middle, T* last)
 {
     rotate_fast (first, middle, last);
-    return first;
+    return first + (last - middle);
 }
  
 
-- 
2.43.0


From 6bf697391d8d69356a4d4026584be72962d58845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 049/159] fix: partial_sum read its result while writing it and
 did not return its end

---
 unumeric.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..ee91312 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -70,11 +70,14 @@ constexpr T inner_product
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
-    return result;
+    if (!(first < last))
+	return result;
+    *result = *first;
+    while (++first < last) {
+	const OutputIterator prev (result);
+	*++result = *prev + *first;
+    }
+    return ++result;
 }
 
 /// Writes result such that result[i] = sumOp (first...first+i)
@@ -83,11 +86,14 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
-    return result;
+    if (!(first < last))
+	return result;
+    *result = *first;
+    while (++first < last) {
+	const OutputIterator prev (result);
+	*++result = sumOp (*prev, *first);
+    }
+    return ++result;
 }
 
 /// Writes result such that result[i] = first[i] - first[i - 1]
-- 
2.43.0


From 72618b3748049cb4ea0c242179df46eefaa0fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 050/159] fix: adjacent_difference never returned

---
 unumeric.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index ee91312..3f8dced 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -102,11 +102,16 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result++ = *first++;
-    while (first < last)
-	*result++ = *first - *(first - 1);
-    return result;
+    if (!(first < last))
+	return result;
+    typename iterator_traits<InputIterator>::value_type prev (*first);
+    *result = prev;
+    while (++first < last) {
+	const typename iterator_traits<InputIterator>::value_type v (*first);
+	*++result = v - prev;
+	prev = v;
+    }
+    return ++result;
 }
 
 /// Writes result such that result[i] = differenceOp (first[i], first[i - 1])
@@ -115,11 +120,16 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation differenceOp)
 {
-    if (first < last)
-	*result++ = *first++;
-    while (first < last)
-	*result++ = differenceOp (*first, *(first - 1));
-    return result;
+    if (!(first < last))
+	return result;
+    typename iterator_traits<InputIterator>::value_type prev (*first);
+    *result = prev;
+    while (++first < last) {
+	const typename iterator_traits<InputIterator>::value_type v (*first);
+	*++result = differenceOp (v, prev);
+	prev = v;
+    }
+    return ++result;
 }
 
 /// \brief Returns x^n.
-- 
2.43.0


From 91bb2b6194cf26b4ede9acc7b048526ebb097ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 051/159] fix: power with an operation combined even powers
 with one

---
 unumeric.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unumeric.h b/unumeric.h
index 3f8dced..e48b51b 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -155,7 +155,11 @@ constexpr T power (T x, unsigned n)
 template <typename T, typename BinaryOperation>
 constexpr T power (T x, unsigned n, BinaryOperation op)
 {
-    T result (n % 2 ? x : 1);
+    if (!n)
+	return T (1);
+    for (; !(n % 2); n /= 2)
+	x = op (x, x);
+    T result (x);
     while (n /= 2) {
 	x = op (x, x);
 	if (n % 2)
-- 
2.43.0


From 888077a0bd89492f1b273300b71a4eb2f28a3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 052/159] fix: minmax_element must return the last of equal
 largest elements

---
 ualgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index b4296a2..3f34287 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -686,7 +686,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (*first < *r.first)
 	    r.first = first;
-	if (*r.second < *first)
+	if (!(*first < *r.second))
 	    r.second = first;
     }
     return r;
@@ -698,7 +698,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (comp (*first, *r.first))
 	    r.first = first;
-	if (comp (*r.second, *first))
+	if (!comp (*first, *r.second))
 	    r.second = first;
     }
     return r;
-- 
2.43.0


From bde8d88665e2cbf2c046a80f584652e4d3a14623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 053/159] fix: the difference of reverse iterators had the
 wrong sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..bd8c5e8 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From 38e673f1fa7a8f54bea5b19c24f6f713c0ead72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 054/159] fix: offsets and differences of move iterators had
 the wrong sign

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index bd8c5e8..8ff7d32 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -307,10 +307,10 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From 000e8915918b9fca89376375b6edb5c884748070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 055/159] fix: the difference of index iterators had the wrong
 sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index 8ff7d32..dd1e4cb 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From 149570a172c5bfb440240b8ee4d17c06400bfcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 056/159] fix: writing through an incremented insert_iterator
 lost the insert position

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index dd1e4cb..cbfd1f2 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++_ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From 04c0f17d3a410b517d51bf85f23d5ca5e4127a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 057/159] fix: make_pair of variables returned references to
 them

---
 ualgo.h | 6 +++---
 upair.h | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 3f34287..4ea7cf5 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -645,13 +645,13 @@ inline constexpr ForwardIterator min_element (ForwardIterator first, ForwardIter
 /// Returns min,max pair of the argument
 template <typename T>
 inline constexpr auto minmax (const T& a, const T& b)
-    { return b < a ? make_pair<const T&,const T&>(b,a) : make_pair<const T&,const T&>(a,b); }
+    { return b < a ? pair<const T&,const T&>(b,a) : pair<const T&,const T&>(a,b); }
 template <typename T>
 inline constexpr auto minmax (T& a, T& b)
-    { return b < a ? make_pair<T&,T&>(b,a) : make_pair<T&,T&>(a,b); }
+    { return b < a ? pair<T&,T&>(b,a) : pair<T&,T&>(a,b); }
 template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
-    { return comp(b,a) ? make_pair<const T&,const T&>(b,a) : make_pair<const T&,const T&>(a,b); }
+    { return comp(b,a) ? pair<const T&,const T&>(b,a) : pair<const T&,const T&>(a,b); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
 template <typename T, typename Compare> constexpr void minmax (const T&& a, const T&& b, Compare comp) = delete;
 
diff --git a/upair.h b/upair.h
index f6a9817..7700d77 100644
--- a/upair.h
+++ b/upair.h
@@ -5,6 +5,7 @@
 
 #pragma once
 #include "ualgobase.h"
+#include "uttraits.h"
 
 namespace ustl {
 
@@ -60,8 +61,8 @@ public:
 
 /// Returns a pair object with (a,b)
 template <typename T1, typename T2>
-inline constexpr pair<T1,T2> make_pair (T1&& a, T2&& b)
-    { return pair<T1,T2> (forward<T1>(a), forward<T2>(b)); }
+inline constexpr pair<decay_t<T1>,decay_t<T2>> make_pair (T1&& a, T2&& b)
+    { return pair<decay_t<T1>,decay_t<T2>> (forward<T1>(a), forward<T2>(b)); }
 
 #endif
 
-- 
2.43.0


From cfa3b3d594ccbf0d222f35b4016f59b9644073d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 058/159] fix: copy_backward of bytes and shorts returned the
 end instead of the start of the copy

---
 ualgobase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.h b/ualgobase.h
index 1d9b28a..fbdd938 100644
--- a/ualgobase.h
+++ b/ualgobase.h
@@ -200,7 +200,7 @@ template <>
 inline uint8_t* copy_backward (const uint8_t* first, const uint8_t* last, uint8_t* result)
 {
     copy_backward_fast (first, last, result);
-    return result;
+    return result - (last - first);
 }
 
 template <typename T>
-- 
2.43.0


From e43bea647fd0266c8a29e01c6cf20f92063f03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 059/159] fix: rotating or inserting into blocks of many
 megabytes overflowed the stack

---
 ualgobase.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index efa43c7..477d437 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -229,8 +229,9 @@ void rotate_fast (void* first, void* middle, void* last) noexcept
     const size_t hmin (min (half1, half2));
     if (!hmin)
 	return;
-    void* buf = alloca (hmin);
-    if (buf) {
+    const size_t c_MaxStackBuffer = 64*1024;
+    if (hmin <= c_MaxStackBuffer) {
+	void* buf = alloca (hmin);
 	if (half2 < half1) {
 	    copy_n_fast (middle, half2, buf);
 	    copy_backward_fast (first, middle, last);
-- 
2.43.0


From 2bbc8b7cbb80ad199983bcefdf739b78e234ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 060/159] fix: assigning a backtrace leaked its symbols, and
 copying one without symbols crashed

---
 bktrace.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 7be0f3d..d83192c 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -37,10 +37,17 @@ CBacktrace::CBacktrace (const CBacktrace& v) noexcept
 /// Copy operator.
 const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 {
+    if (&v == this)
+	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
-    _symbols = strdup (v._symbols);
+    nfree (_symbols);
     _nFrames = v._nFrames;
-    _symbolsSize = v._symbolsSize;
+    _symbolsSize = 0;
+    if (v._symbols && (_symbols = static_cast<char*>(malloc (v._symbolsSize + 1)))) {
+	memcpy (_symbols, v._symbols, v._symbolsSize);
+	_symbols [v._symbolsSize] = 0;
+	_symbolsSize = v._symbolsSize;
+    }
     return *this;
 }
 
-- 
2.43.0


From e0141d1160f9754bd7096324e1d347eb1adafee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 061/159] fix: backtrace of a program with a + in its path read
 past the symbol text

---
 bktrace.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bktrace.cc b/bktrace.cc
index d83192c..59d8e42 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -61,7 +61,7 @@ static size_t ExtractAbiName (const char* isym, char* nmbuf) noexcept
 	const char* mnStart = strchr (isym, '(');
 	if (++mnStart == reinterpret_cast<const char*>(1))
 	    mnStart = isym;
-	const char* mnEnd = strchr (isym, '+');
+	const char* mnEnd = strchr (mnStart, '+');
 	const char* isymEnd = isym + strlen (isym);
 	if (!mnEnd)
 	    mnEnd = isymEnd;
-- 
2.43.0


From b227c22d25eedfe67904a772cc6a98bc3d1fdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 062/159] fix: demangling a type name longer than 255
 characters freed a stack buffer

---
 uexception.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 8cfacc8..4ff222a 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -70,15 +70,14 @@ const char* demangle_type_name (char* buf, size_t bufSize, size_t* pdmSize) noex
 {
     size_t bl = strlen (buf);
 #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
-    char dmname [256];
-    size_t sz = VectorSize(dmname);
-    int bFailed;
-    __cxa_demangle (buf, dmname, &sz, &bFailed);
-    if (!bFailed) {
+    int bFailed = 0;
+    char* dmname = __cxa_demangle (buf, nullptr, nullptr, &bFailed);
+    if (dmname && !bFailed) {
 	bl = min (strlen (dmname), bufSize - 1);
 	memcpy (buf, dmname, bl);
 	buf[bl] = 0;
     }
+    free (dmname);
 #else
     bl = min (bl, bufSize);
 #endif
-- 
2.43.0


From 7658d05f728837e468566fee5ae9a43821211376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 063/159] fix: reading a backtrace trusted the sizes in the
 stream

---
 bktrace.cc | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 59d8e42..f8010a6 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -6,6 +6,7 @@
 #include "bktrace.h"
 #include "sostream.h"
 #include "mistream.h"
+#include "ustdxept.h"
 #if HAVE_EXECINFO_H
     #include <execinfo.h>
 #else
@@ -107,7 +108,11 @@ void CBacktrace::text_write (ostringstream& os) const
     const char *ss = _symbols, *se;
     for (uoff_t i = 0; i < _nFrames; ++ i) {
 	os.format (ADDRESS_FMT, _addresses[i]);
-	se = strchr (ss, '\n') + 1;
+	if (!ss || !(se = strchr (ss, '\n'))) {	// no symbol for this frame
+	    os << '\n';
+	    continue;
+	}
+	++se;
 	os.write (ss, distance (ss, se));
 	ss = se;
     }
@@ -117,13 +122,24 @@ void CBacktrace::text_write (ostringstream& os) const
 void CBacktrace::read (istream& is)
 {
     assert (is.aligned (stream_align_of (_addresses[0])) && "Backtrace object contains pointers and must be void* aligned");
-    is >> _nFrames >> _symbolsSize;
+    uint32_t nFrames = 0, symbolsSize = 0;
+    is >> nFrames >> symbolsSize;
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", size_t(symbolsSize) + size_t(nFrames) * sizeof(void*)))
+	return;
+    if (nFrames > VectorSize(_addresses))
+	throw length_error ("backtrace has too many frames");
     nfree (_symbols);
-    _symbols = static_cast<char*> (malloc (_symbolsSize + 1));
-    is.read (_symbols, _symbolsSize);
-    _symbols [_symbolsSize] = 0;
+    _nFrames = _symbolsSize = 0;
+    if (!(_symbols = static_cast<char*> (malloc (symbolsSize + 1))))
+	throw bad_alloc (symbolsSize + 1);
+    is.read (_symbols, symbolsSize);
+    _symbols [symbolsSize] = 0;
+    _symbolsSize = symbolsSize;
     is.align();
-    is.read (_addresses, _nFrames * sizeof(void*));
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", nFrames * sizeof(void*)))
+	return;
+    is.read (_addresses, nFrames * sizeof(void*));
+    _nFrames = nFrames;
 }
 
 /// Writes the object to stream \p os.
-- 
2.43.0


From 0b1dface6d30e82eb12854da2bcd2ccbfe7a90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 064/159] fix: a stream bounds exception was written with a
 pointer in place of its type name

---
 ustdxept.cc | 11 ++++++-----
 ustdxept.h  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index 7f0715c..8f5d006 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -144,11 +144,12 @@ size_t file_exception::stream_size (void) const noexcept
 /// Initializes the empty object. \p operation is the function that returned the error code.
 stream_bounds_exception::stream_bounds_exception (const char* operation, const char* type, uoff_t offset, size_t expected, size_t remaining) noexcept
 : system_error (operation)
-,_typeName (type)
+,_typeName()
 ,_offset (offset)
 ,_expected (expected)
 ,_remaining (remaining)
 {
+    try { _typeName = type; } catch (...) {}
     set_format (xfmt_StreamBoundsException);
 }
 
@@ -156,7 +157,7 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
-    strncpy (typeName, _typeName, VectorSize(typeName));
+    strncpy (typeName, TypeName(), VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
     if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
@@ -166,21 +167,21 @@ void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexc
 void stream_bounds_exception::read (istream& is)
 {
     system_error::read (is);
-    is >> _typeName >> _offset >> _expected >> _remaining;
+    is >> _typeName >> ios::align() >> _offset >> _expected >> _remaining;
 }
 
 /// Writes the exception into stream \p os.
 void stream_bounds_exception::write (ostream& os) const
 {
     system_error::write (os);
-    os << _typeName << _offset << _expected << _remaining;
+    os << _typeName << ios::align() << _offset << _expected << _remaining;
 }
 
 /// Returns the size of the written exception.
 size_t stream_bounds_exception::stream_size (void) const noexcept
 {
     return system_error::stream_size() +
-	    stream_size_of(_typeName) +
+	    Align (stream_size_of(_typeName)) +
 	    stream_size_of(_offset) +
 	    stream_size_of(_expected) +
 	    stream_size_of(_remaining);
diff --git a/ustdxept.h b/ustdxept.h
index 77d7003..a90271d 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -208,12 +208,12 @@ public:
     virtual void	read (istream& is) override;
     virtual void	write (ostream& os) const override;
     virtual size_t	stream_size (void) const noexcept override;
-    inline const char*	TypeName (void) const	{ return _typeName; }
+    inline const char*	TypeName (void) const	{ return _typeName.c_str(); }
     inline uoff_t	Offset (void) const	{ return _offset; }
     inline size_t	Expected (void) const	{ return _expected; }
     inline size_t	Remaining (void) const	{ return _remaining; }
 private:
-    const char*		_typeName;
+    string		_typeName;
     uoff_t		_offset;
     size_t		_expected;
     size_t		_remaining;
-- 
2.43.0


From 8c7ceeb4753adc1e0a269d5407e7e1290f7ef923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 065/159] fix: exceptions printed sizes above 2G wrong

---
 uexception.cc | 2 +-
 ustdxept.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 4ff222a..b351824 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -102,7 +102,7 @@ bad_alloc::bad_alloc (size_t nBytes) noexcept
 /// Returns a descriptive error message. fmt="failed to allocate %d bytes"
 void bad_alloc::info (ustl::string& msgbuf, const char* fmt) const noexcept
 {
-    if (!fmt) fmt = "failed to allocate %d bytes";
+    if (!fmt) fmt = "failed to allocate %zu bytes";
     try { msgbuf.format (fmt, _bytesRequested); } catch (...) {}
 }
 
diff --git a/ustdxept.cc b/ustdxept.cc
index 8f5d006..5b42c34 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -159,7 +159,7 @@ void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexc
     char typeName [256];
     strncpy (typeName, TypeName(), VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
-    if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
+    if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
 }
 
-- 
2.43.0


From 330c4053bd7e96ac011f0213aa3092b4d7e85d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 066/159] fix: reading a string from an empty stream used an
 uninitialised size

---
 ustring.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ustring.cc b/ustring.cc
index 06964d7..9d5ba88 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -356,6 +356,7 @@ size_t string::stream_size (void) const noexcept
 void string::read (istream& is)
 {
     char szbuf [8];
+    if (!is.verify_remaining ("read", "ustl::string", sizeof(szbuf[0]))) return;
     is >> szbuf[0];
     size_t szsz (Utf8SequenceBytes (szbuf[0]) - 1), n = 0;
     if (!is.verify_remaining ("read", "ustl::string", szsz)) return;
-- 
2.43.0


From 7b35fe84e01f77849e740764245d15221e227680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 067/159] fix: reading an unterminated string moved the
 position past the end of the stream

---
 mistream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..892a8ad 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,9 +48,9 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
     const size_type strl = distance (ipos(), zp);
+    if (!verify_remaining ("read", "nul-terminated string", strl + 1))
+	return;
     str.assign (ipos(), strl);
     _pos += strl + 1;
 }
-- 
2.43.0


From 3d706a5c7839809357918ad2fed2e6450ae9015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 068/159] fix: text stream widths and precisions above 9 had
 their digits reversed

---
 sostream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index f094b17..014a08f 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -64,9 +64,12 @@ ostringstream& ostringstream::write (const void* buffer, size_type sz)
 /// Simple decimal encoding of \p n into \p fmt.
 inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 {
+    char buf [10], *first = buf + sizeof(buf);
     do {
-	*fmt++ = '0' + n % 10;
+	*--first = '0' + n % 10;
     } while (n /= 10);
+    while (first < buf + sizeof(buf))
+	*fmt++ = *first++;
     return fmt;
 }
 
-- 
2.43.0


From 664f22cd216c7d1e0ad09cbbdfae47e2dc1fdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 069/159] fix: text stream alignment and sign flags were
 written after the width, where printf ignores them

---
 sostream.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index 014a08f..543405c 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -77,11 +77,6 @@ inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) const
 {
     *fmt++ = '%';
-    if (_width) {
-	if (_fill == '0')
-	    *fmt++ = '0';
-	fmt = encode_dec (fmt, _width);
-    }
     if (_flags & left)
 	*fmt++ = '-';
     if (bInteger) {
@@ -89,7 +84,13 @@ void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) co
 	    *fmt++ = '+';
 	if (_flags & showbase)
 	    *fmt++ = '#';
-    } else {
+    }
+    if (_width) {
+	if (_fill == '0')
+	    *fmt++ = '0';
+	fmt = encode_dec (fmt, _width);
+    }
+    if (!bInteger) {
 	*fmt++ = '.';
 	fmt = encode_dec (fmt, _precision);
     }
-- 
2.43.0


From aba4d3f6ee27d6068e3fa2e234c07ff16a520b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 070/159] fix: an output string stream made from a linked
 string wrote into the linked text

---
 sostream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sostream.cc b/sostream.cc
index 543405c..03a6c1f 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -34,6 +34,8 @@ ostringstream::ostringstream (const string& v)
 ,_fill (0)
 {
     exceptions (goodbit);
+    if (_buffer.size())
+	_buffer.copy_link();	// may be linked to constant text
     ostream::link (_buffer);
 }
 
-- 
2.43.0


From 1adc2779f217f867b92e821c9efd9e3cfd0337d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 071/159] fix: flushing an output string stream linked to
 memory lost what was written after it

---
 sostream.cc | 2 ++
 sostream.h  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 03a6c1f..1b47a6f 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -167,6 +167,8 @@ ostringstream::size_type ostringstream::overflow (size_type n)
 {
     if (n > remaining() && (good() || n <= capacity() - pos())) {
 	const uoff_t oldPos (pos());
+	if (_buffer.begin() != begin())		// flush of a linked stream makes a copy
+	    _buffer.assign (begin(), oldPos);
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
diff --git a/sostream.h b/sostream.h
index 0c394c8..064a178 100644
--- a/sostream.h
+++ b/sostream.h
@@ -68,7 +68,7 @@ public:
     ostringstream&		write (const void* buffer, size_type size);
     inline ostringstream&	write (const cmemlink& buf)	{ return write (buf.begin(), buf.size()); }
     inline ostringstream&	seekp (off_t p, seekdir d =beg)	{ ostream::seekp(p,d); return *this; }
-    virtual ostream&		flush (void) override		{ ostream::flush(); _buffer.resize (pos()); return *this; }
+    virtual ostream&		flush (void) override		{ ostream::flush(); if (_buffer.is_linked() || _buffer.begin() != begin()) _buffer.assign (begin(), pos()); else _buffer.resize (pos()); return *this; }
     virtual size_type		overflow (size_type n = 1) override;
 protected:
     inline void			reserve (size_type n)		{ _buffer.reserve (n, false); }
-- 
2.43.0


From b10df99271bbe24a3df6b2d6cd2fd4d123e05857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 072/159] fix: growing a linked memory block read past its end

---
 memblock.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index 56a5df9..e98d002 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -89,8 +89,10 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + minimumFreeCapacity(), newSize), newBlock);
+    if (!oldBlock & (cdata() != nullptr)) {
+	copy_n (cdata(), size(), newBlock);
+	fill_n (newBlock + size(), minimumFreeCapacity(), '\0');
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From f028722ba6b70f76b96f005d6339aaf436451695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 073/159] fix: reading a boolean at the end of the text put its
 last letter back

---
 sistream.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 4081cc8..c2c821d 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -128,9 +128,13 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && (remaining() || underflow()); ++tv)
+    for (const char* tv = tf[v]; *++tv && (remaining() || underflow());) {
 	istream::iread (c);
-    ungetc();
+	if (c != *tv) {
+	    ungetc();
+	    break;
+	}
+    }
 }
 
 void istringstream::iread (string& v)
-- 
2.43.0


From 4a00dcd63fb32fef9cb9123ea3bc594e74aef479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 074/159] fix: an escaped backslash in text input also escaped
 the character after it

---
 sistream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sistream.cc b/sistream.cc
index c2c821d..0eb4156 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -164,6 +164,7 @@ void istringstream::iread (string& v)
 		case '\\':	c = '\\'; break;
 	    };
 	    v.end()[-1] = c;
+	    c = 0;	// an escaped backslash does not start another escape
 	} else {
 	    if (c == quoteChar)
 		break;
-- 
2.43.0


From dcfd8d6006740a29b80beefa8b2895a5953e5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 075/159] fix: get and peek at the end of text returned nul and
 moved back

---
 sistream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sistream.h b/sistream.h
index 9070bdf..fad18dd 100644
--- a/sistream.h
+++ b/sistream.h
@@ -55,13 +55,13 @@ public:
     inline string		str (void) const	{ string s; s.link (*this); return s; }
     inline istringstream&	str (const string& s)	{ link (s); return *this; }
     inline istringstream&	get (char& c)	{ return read (&c, sizeof(c)); }
-    inline int			get (void)	{ char c = EOF; get(c); return c; }
+    inline int			get (void)	{ char c = 0; get(c); return _gcount ? c : EOF; }
     istringstream&		get (char* p, size_type n, char delim = '\n');
     istringstream&		get (string& s, char delim = '\n');
     istringstream&		getline (char* p, size_type n, char delim = '\n');
     istringstream&		getline (string& s, char delim = '\n');
     istringstream&		ignore (size_type n, char delim = '\0');
-    inline char			peek (void)	{ char v = get(); ungetc(); return v; }
+    inline char			peek (void)	{ char v = get(); if (_gcount) ungetc(); return v; }
     inline istringstream&	unget (void)	{ ungetc(); return *this; }
     inline void			set_delimiters (const char* delimiters);
     istringstream&		read (void* buffer, size_type size);
-- 
2.43.0


From 72c4c2f9da2dc8874cc76a2a277439740ea40eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 076/159] fix: ignore on a text stream counted wrong

---
 sistream.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 0eb4156..ae8f54e 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -238,9 +238,13 @@ istringstream& istringstream::getline (char* p, size_type n, char delim)
 /// Extract until \p delim or \p n chars have been read.
 istringstream& istringstream::ignore (size_type n, char delim)
 {
-    _gcount = n;
-    while (n-- && (remaining() || underflow()) && get() != delim) {}
-    _gcount -= n;
+    size_type nRead = 0;
+    while (nRead < n && (remaining() || underflow())) {
+	++nRead;
+	if (get() == delim)
+	    break;
+    }
+    _gcount = nRead;
     return *this;
 }
 
-- 
2.43.0


From 4775ceff7bed419fee0e1777d926ae4dad64ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 077/159] fix: reading a block longer than the text stopped at
 a nul

---
 sistream.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index ae8f54e..00bdf14 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -175,9 +175,12 @@ void istringstream::iread (string& v)
 
 istringstream& istringstream::read (void* buffer, size_type sz)
 {
-    if (remaining() < sz && underflow(sz) < sz)
-	get (static_cast<char*>(buffer), sz, 0);
-    else
+    if (remaining() < sz && underflow(sz) < sz) {
+	_gcount = remaining();
+	istream::read (buffer, _gcount);
+	static_cast<char*>(buffer)[_gcount] = 0;
+	verify_remaining ("read", "text", 1);
+    } else
 	istream::read (buffer, _gcount = sz);
     return *this;
 }
-- 
2.43.0


From d53d41ead72d81c7d5492a15169b1e47b0d38b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 078/159] fix: unsigned 64 bit values above the signed range
 were read wrong

---
 sistream.cc | 8 ++++++++
 sistream.h  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 00bdf14..3cbe482 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -79,6 +79,12 @@ inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, T& v)
     { v = strtol (i, const_cast<char**>(iend), base); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, double& v)
     { v = strtod (i, const_cast<char**>(iend)); }
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long& v)
+    { v = strtoul (i, const_cast<char**>(iend), base); }
+#if HAVE_LONG_LONG
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long long& v)
+    { v = strtoull (i, const_cast<char**>(iend), base); }
+#endif
 #if HAVE_LONG_LONG && SIZE_OF_LONG_LONG > SIZE_OF_LONG
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, long long& v)
     { v = strtoll (i, const_cast<char**>(iend), base); }
@@ -103,8 +109,10 @@ inline void istringstream::read_number (T& v)
 void istringstream::iread (int& v)		{ read_number (v); }
 void istringstream::iread (double& v)		{ read_number (v); } 
 void istringstream::iread (long& v)		{ read_number (v); }
+void istringstream::iread (unsigned long& v)	{ read_number (v); }
 #if HAVE_LONG_LONG
 void istringstream::iread (long long& v)	{ read_number (v); }
+void istringstream::iread (unsigned long long& v)	{ read_number (v); }
 #endif
 
 void istringstream::iread (wchar_t& v)
diff --git a/sistream.h b/sistream.h
index fad18dd..6b166ca 100644
--- a/sistream.h
+++ b/sistream.h
@@ -37,13 +37,13 @@ public:
     inline void			iread (short& v)		{ int c; iread(c); v = c; }
     inline void			iread (unsigned short& v)	{ int c; iread(c); v = c; }
     void			iread (long& v);
-    inline void			iread (unsigned long& v)	{ long c; iread(c); v = c; }
+    void			iread (unsigned long& v);
 #if HAVE_THREE_CHAR_TYPES
     void			iread (signed char& v)		{ char c; iread(c); v = c; }
 #endif
 #if HAVE_LONG_LONG
     void			iread (long long& v);
-    inline void			iread (unsigned long long& v)	{ long long c; iread(c); v = c; }
+    void			iread (unsigned long long& v);
 #endif
     void			iread (double& v);
     inline void			iread (float& v)		{ double c; iread(c); v = c; }
-- 
2.43.0


From bcab5be23bb983e22ebf960723dec4ce2813033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 079/159] fix: the decimal flag of a text input stream did not
 make it read decimal

---
 sistream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index 3cbe482..63c3cf2 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -101,7 +101,7 @@ inline void istringstream::read_number (T& v)
     ungetc();
     iterator ilast;
     do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
+	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : (_flags & dec) ? 10 : 0, v);
 	skip (distance (ipos(), ilast));
     } while (ilast == end() && underflow());
 }
-- 
2.43.0


From 315a08d2e199fd480a34dcba55104928fd055c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 080/159] fix: a text input file stream lost unread text when
 more was needed than was buffered

---
 ofstream.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index fb99918..3cad9a7 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -129,6 +129,7 @@ void ifstream::set_buffer_size (size_type sz)
 ifstream::size_type ifstream::underflow (size_type n)
 {
     if (!_file.eof()) {
+	const size_type nUnread = remaining();	// kept in front of what is read
 	const ssize_t freeSpace = _buffer.size() - pos();
 	const ssize_t neededFreeSpace = max (n, _buffer.size() / 2);
 	const size_t oughtToErase = Align (max (0, neededFreeSpace - freeSpace));
@@ -136,9 +137,9 @@ ifstream::size_type ifstream::underflow (size_type n)
 	_buffer.memlink::erase (_buffer.begin(), nToErase);
 	const uoff_t oldPos (pos() - nToErase);
 
-	size_type br = oldPos;
-	if (_buffer.size() - br < n) {
-	    _buffer.resize (br + neededFreeSpace);
+	size_type br = oldPos + nUnread;
+	if (_buffer.size() - oldPos < n) {
+	    _buffer.resize (oldPos + neededFreeSpace);
 	    link (_buffer.data(), streamsize(0));
 	}
 	if (_file.fd() == STDIN_FILENO)
-- 
2.43.0


From e0f0388cbc0afcf4ebf2f8d05f6b3f5f879652c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 081/159] fix: a text input file stream with exceptions on lost
 the text read before the end or an error

---
 ofstream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index 3cad9a7..2519b07 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -5,7 +5,7 @@
 
 #include "ofstream.h"
 #include "ustring.h"
-#include "uexception.h"
+#include "ustdxept.h"
 #include <stdio.h>
 
 namespace ustl {
@@ -145,14 +145,19 @@ ifstream::size_type ifstream::underflow (size_type n)
 	if (_file.fd() == STDIN_FILENO)
 	    cout.flush();
 
+	const iostate oldExceptions = _file.exceptions();
+	_file.exceptions (goodbit);	// what was read must be kept first
 	size_type brn = 1;
 	for (; br < oldPos + n && brn && _file.good(); br += brn)
 	    brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
+	_file.exceptions (oldExceptions);
 	clear (_file.rdstate());
 
 	_buffer[br] = 0;
 	link (_buffer.data(), br);
 	seek (oldPos);
+	if (!_file.good() && !_file.eof() && set_and_throw (_file.rdstate()))
+	    throw file_exception ("read", _file.name());
     }
     if (_file.eof())
 	verify_remaining ("read", _file.name(), n);
-- 
2.43.0


From 14cb718c5ab0f6e294f8313d3b223e4531fb5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 082/159] fix: a text output file stream never reported failed
 writes, and its flush then never returned

---
 ofstream.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ofstream.cc b/ofstream.cc
index 2519b07..7ee8b39 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -79,8 +79,13 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
 ofstream::size_type ofstream::overflow (size_type n)
 {
     if (_file.good() && n > capacity() - pos()) {
+	const iostate oldExceptions = _file.exceptions();
+	_file.exceptions (goodbit);	// what was written must be erased first
 	size_type bw = _file.write (cdata(), pos());
+	_file.exceptions (oldExceptions);
 	erase (begin(), bw);
+	if (!_file.good() && set_and_throw (_file.rdstate()))
+	    throw file_exception ("write", _file.name());
     }
     return ostringstream::overflow (n);
 }
-- 
2.43.0


From 531ba6957fa250c276f304e49fb03822741405c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 083/159] fix: opening another file in an open file stream lost
 the name of the file

---
 fstream.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..579b8b0 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -64,12 +64,14 @@ void fstream::set_and_throw (iostate s, const char* op)
 void fstream::attach (int nfd, const char* filename)
 {
     assert (filename && "Don't do that");
-    _filename = filename;
+    string newName;
+    newName = filename;		// copied, because it may be the name closed below
     clear (goodbit);
-    if (nfd < 0)
-	set_and_throw (badbit, "open");
     close();
+    _filename.swap (newName);
     _fd = nfd;
+    if (nfd < 0)
+	set_and_throw (badbit, "open");
 }
 
 /// Detaches from the current fd.
-- 
2.43.0


From 638b062e72170eb8456c2f910b3b444786ecc0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 084/159] fix: a file whose close failed with exceptions on was
 closed again

---
 fstream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index 579b8b0..c8dc503 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -120,7 +120,9 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    while (::close(_fd)) {
+    const int fd = _fd;
+    _fd = -1;	// gone whatever happens
+    while (::close(fd)) {
 	if (errno != EINTR) {
 	    set_and_throw (badbit | failbit, "close");
 	    break;
-- 
2.43.0


From 463b0f73e441fbbe95e74afc58d14397247c731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 085/159] fix: mapping a file returned an invalid block on
 failure

---
 fstream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index c8dc503..d3d4b14 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -246,8 +246,10 @@ void fstream::set_nonblock (bool v) noexcept
 memlink fstream::mmap (off_t n, off_t offset)
 {
     void* result = ::mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, _fd, offset);
-    if (result == MAP_FAILED)
+    if (result == MAP_FAILED) {
 	set_and_throw (failbit, "mmap");
+	return memlink();
+    }
     return memlink (result, n);
 }
 
-- 
2.43.0


From a2ff36ca21656fcc960fd2ee2ce52ce52747d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 086/159] fix: opening or closing a text input file stream kept
 the text of the previous file

---
 ofstream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ofstream.h b/ofstream.h
index 413ba5a..558a53f 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -47,8 +47,8 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ _file.open (filename, mode); clear (_file.rdstate()); }
-    inline void		close (void)			{ _file.close(); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		close (void)			{ link (_buffer.data(), streamsize(0)); _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
     inline void		setstate (iostate v)		{ istringstream::setstate(v); _file.setstate(v); }
-- 
2.43.0


From e3fc0d626ee5a4e574a83830dd9cef74ea526c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 087/159] fix: seeking a text input file stream relative to the
 current position ignored the buffer

---
 ofstream.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 7ee8b39..83e04ce 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -181,8 +181,9 @@ int ifstream::sync (void)
 /// Seeks to \p p based on \p d.
 ifstream& ifstream::seekg (off_t p, seekdir d)
 {
-    _buffer.clear();
-    link (_buffer);
+    if (d == cur)
+	p -= remaining();	// the file is ahead of the stream by what is buffered
+    link (_buffer.data(), streamsize(0));
     _file.seekg (p, d);
     clear (_file.rdstate());
     return *this;
-- 
2.43.0


From f4781d24f21c83d7d65c30cc013835dee156074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 088/159] fix: a number at the end of the text was read past
 it, and one across the end of the buffer was read as two

---
 sistream.cc | 27 ++++++++++++++++++++++++---
 sistream.h  |  1 +
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 63c3cf2..73e49b1 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -6,6 +6,7 @@
 #include "sistream.h"
 #include "sostream.h"
 #include "ustring.h"
+#include <ctype.h>
 
 namespace ustl {
 
@@ -99,11 +100,31 @@ inline void istringstream::read_number (T& v)
     if (!skip_delimiters())
 	return;
     ungetc();
+    const size_type n = number_extent();
+    string num;
+    num.assign (ipos(), n);	// the text is not necessarily terminated
     iterator ilast;
+    str_to_num<T> (num.c_str(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : (_flags & dec) ? 10 : 0, v);
+    skip (distance (const_iterator(num.c_str()), const_iterator(ilast)));
+    if (!remaining())
+	underflow();
+}
+
+/// Returns the number of characters that could be part of a number, buffering all of them.
+istringstream::size_type istringstream::number_extent (void)
+{
+    const iostate oldState = rdstate(), oldExceptions = exceptions();
+    exceptions (goodbit);	// the end of the text is not an error here
+    size_type n = 0;
     do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : (_flags & dec) ? 10 : 0, v);
-	skip (distance (ipos(), ilast));
-    } while (ilast == end() && underflow());
+	while (n < remaining() && isspace (ipos()[n]))
+	    ++n;
+	while (n < remaining() && (isalnum (ipos()[n]) || (ipos()[n] && strchr ("+-.()_", ipos()[n]))))
+	    ++n;
+    } while (n >= remaining() && underflow (n + 1) > n);
+    exceptions (oldExceptions);
+    clear (oldState);
+    return n;
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
diff --git a/sistream.h b/sistream.h
index 6b166ca..930ed52 100644
--- a/sistream.h
+++ b/sistream.h
@@ -75,6 +75,7 @@ private:
     inline void			read_strz (string&)	{ assert (!"Reading nul characters is not allowed from text streams"); }
     inline bool			is_delimiter (char c) const noexcept;
     template <typename T> void	read_number (T& v);
+    size_type			number_extent (void);
 private:
     fmtflags			_flags;
     uint32_t			_gcount;
-- 
2.43.0


From c17ca3acf5f35b117bd07a692548f0a084c980df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 089/159] fix: text that is not a number was read as 0 without
 any sign of failure

---
 sistream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index 73e49b1..ebc88d7 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -105,9 +105,12 @@ inline void istringstream::read_number (T& v)
     num.assign (ipos(), n);	// the text is not necessarily terminated
     iterator ilast;
     str_to_num<T> (num.c_str(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : (_flags & dec) ? 10 : 0, v);
-    skip (distance (const_iterator(num.c_str()), const_iterator(ilast)));
+    const size_type used = distance (const_iterator(num.c_str()), const_iterator(ilast));
+    skip (used);
     if (!remaining())
 	underflow();
+    else if (!used)
+	overrun ("read", "number", 1, pos(), remaining());
 }
 
 /// Returns the number of characters that could be part of a number, buffering all of them.
-- 
2.43.0


From 7627c42deebca32a6790c8b7b36e9132dc6db00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 090/159] fix: a failed close of a text output file stream was
 not in its state

---
 ofstream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ofstream.cc b/ofstream.cc
index 83e04ce..275a0a1 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -57,6 +57,7 @@ void ofstream::close (void)
     clear (_file.rdstate());
     flush();
     _file.close();
+    clear (_file.rdstate());
 }
 
 /// Flushes the buffer to the file.
-- 
2.43.0


From 71bbbb422141bfd06330c2b95d8a74c11025500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 091/159] fix: formatted text that did not fit ended in a nul
 character

---
 sostream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 1b47a6f..d9d1b85 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -140,7 +140,7 @@ int ostringstream::vformat (const char* fmt, va_list args)
 	if (0 > (rv = vsnprintf (ipos(), space, fmt, args2)))
 	    return rv;
     } while (rv >= space && rv < int(overflow(rv+1)));
-    SetPos (pos() + min (rv, space));
+    SetPos (pos() + min (rv, max (0, space - 1)));	// the nul is not text
     return rv;
 }
 
-- 
2.43.0


From 11a1031102518d8297ab367702df337960b79843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 092/159] fix: errors made with a temporary operation name kept
 a pointer to it

---
 ustdxept.cc | 5 ++++-
 ustdxept.h  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index 5b42c34..8e75a1b 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -63,10 +63,13 @@ system_error::system_error (const char* operation) noexcept
 : system_error (errno, system_category(), operation)
 #else
 : runtime_error (strerror (errno))
-,_operation (operation)
+,_operation()
 ,_errno (errno)
 #endif
 {
+#if !HAVE_CPP14
+    try { _operation = operation; } catch (...) {}
+#endif
     set_format (xfmt_SystemError);
 }
 
diff --git a/ustdxept.h b/ustdxept.h
index a90271d..629d5b0 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -156,7 +156,8 @@ public:
     inline const char*	Operation (void) const	{ return _operation.c_str(); }
 #if HAVE_CPP14
 			system_error (error_code ec, const char* operation) noexcept
-			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) {}
+			    : runtime_error (ec.message()),_operation(),_errno(ec.value())
+			    { set_format (xfmt_SystemError); try { _operation = operation; } catch (...) {} }
     inline              system_error (error_code ec, const string& operation) noexcept
 			    : system_error (ec, operation.c_str()) {}
     inline              system_error (int ec, const error_category& ecat, const char* operation)
-- 
2.43.0


From 2e2f976c7af02717b2211b9c2c8a68de72f589c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 093/159] fix: errc::not_supported was invalid_argument

---
 uerror.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uerror.h b/uerror.h
index d3bbb00..c7aedb6 100644
--- a/uerror.h
+++ b/uerror.h
@@ -73,7 +73,7 @@ enum class errc {
     not_a_stream			= ENOSTR,
     not_connected			= ENOTCONN,
     not_enough_memory			= ENOMEM,
-    not_supported			= EINVAL,
+    not_supported			= ENOTSUP,
     operation_canceled			= ECANCELED,
     operation_in_progress		= EINPROGRESS,
     operation_not_permitted		= EPERM,
-- 
2.43.0


From 6e9016cf089e85560b1ad39765d72c60180405d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 094/159] fix: bitset::set of a bit range added bits to the old
 value and refused ranges ending at a word boundary

---
 ubitset.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..c39593d 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,14 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
-			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
+			    assert (first / s_WordBits == (last - 1) / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    value_type& br (BitRef (first));
+			    br &= ~(BitMask(value_type,distance(first,last)) << (first % s_WordBits));
+			    br |= v << (first % s_WordBits);
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
@@ -101,7 +103,7 @@ public:
     constexpr value_type at (uoff_t first, uoff_t last) const
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
-			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
+			    assert (first / s_WordBits == (last - 1) / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    return (BitRef(first) >> (first % s_WordBits)) & BitMask(value_type,distance(first, last));
 			}
     constexpr bool	any (void) const	{ value_type sum = 0; foreach (const_iterator, i, *this) sum |= *i; return sum; }
-- 
2.43.0


From db52517eee5e41741d5158df6f699977c65242f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 095/159] fix: unary packed operations discarded their results

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 74d97a1..c270523 100644
--- a/simd.h
+++ b/simd.h
@@ -32,7 +32,7 @@ template <typename Ctr, typename UnaryOperation>
 inline void packop (Ctr& op1, UnaryOperation op)
 {
     foreach (typename Ctr::iterator, i, op1)
-	op (*i);
+	*i = op (*i);
 }
 
 /// Applies \p op to each element in \p op1 and \p op2 and stores in \p op2.
-- 
2.43.0


From 4d68077eb227a6c09b34b86312e359010aa8ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 096/159] fix: three operand packed operations could not be
 used

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index c270523..73a7954 100644
--- a/simd.h
+++ b/simd.h
@@ -52,7 +52,7 @@ inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation
 {
     assert (op1.size() <= op2.size() && op1.size() <= result.size());
     passign (op1, result);
-    op (op2, result);
+    packop (op2, result, op);
 }
 
 /// Copies \p op1 into \p result.
-- 
2.43.0


From 13b4af967385d38feb524ada6d9017896e3b7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 097/159] fix: packed averages of signed bytes and words
 averaged unsigned values

---
 simd.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simd.h b/simd.h
index 73a7954..fd08a46 100644
--- a/simd.h
+++ b/simd.h
@@ -343,9 +343,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From c380abf5859803b6251def32d32117847ff2ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 098/159] fix: saturating addition and subtraction did not
 saturate, or overflowed, on negative values

---
 simd.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index fd08a46..26a9d6e 100644
--- a/simd.h
+++ b/simd.h
@@ -84,8 +84,10 @@ inline void pconvert (const Ctr1& op1, Ctr2& op2, ConvertFunction f)
 }
 
 // Functionoids for SIMD operations, like saturation arithmetic, shifts, etc.
-STD_BINARY_FUNCTOR (fpadds, T, ((b > numeric_limits<T>::max() - a) ? numeric_limits<T>::max() : a + b))
-STD_BINARY_FUNCTOR (fpsubs, T, ((a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : a - b))
+STD_BINARY_FUNCTOR (fpadds, T, (b > 0 ? (a > numeric_limits<T>::max() - b ? numeric_limits<T>::max() : a + b)
+					: (a < numeric_limits<T>::lowest() - b ? numeric_limits<T>::lowest() : a + b)))
+STD_BINARY_FUNCTOR (fpsubs, T, (b > 0 ? (a < numeric_limits<T>::lowest() + b ? numeric_limits<T>::lowest() : a - b)
+					: (a > numeric_limits<T>::max() + b ? numeric_limits<T>::max() : a - b)))
 STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
-- 
2.43.0


From 826e03db680e4ccccce39b5c1dd863545f6eaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 099/159] fix: rounding a float over INT32_MAX to uint32_t gave
 0x80000000

---
 simd.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/simd.h b/simd.h
index 26a9d6e..927e0df 100644
--- a/simd.h
+++ b/simd.h
@@ -434,13 +434,6 @@ template <> inline int32_t fround<float,int32_t>::operator()(const float& a) con
 	 : "=r"(rv) : "m"(a) : "xmm0" );
     return rv;
 }
-template <> inline uint32_t fround<float,uint32_t>::operator()(const float& a) const {
-    uint32_t rv;
-    asm ("movss %1, %%xmm0\n\t"
-	 "cvtss2si %%xmm0, %0"
-	 : "=r"(rv) : "m"(a) : "xmm0" );
-    return rv;
-}
 
 SSE_IPASSIGN_SPEC(4,float)
 SSE_IPASSIGN_SPEC(4,int32_t)
-- 
2.43.0


From 2b5f01782ab0a4ed93218ebb2e457474160ca781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 100/159] fix: packed SSE operations did not tell the compiler
 that they change xmm1

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 927e0df..a9459a7 100644
--- a/simd.h
+++ b/simd.h
@@ -389,7 +389,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From 772b99203b97e3c2856949c86797de63350f7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 101/159] fix: 4x4 float matrix products used element 2 of the
 vector in place of element 1

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From 0b980776bc765cd63c432eda90d50434b7008e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 102/159] fix: matrices could not be constructed from matrices
 of another type

---
 umatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umatrix.h b/umatrix.h
index ddf7e8c..a0a98b8 100644
--- a/umatrix.h
+++ b/umatrix.h
@@ -34,7 +34,7 @@ public:
 public:
     inline			matrix (void)			: tuple<NX*NY,T>() { }
     template <typename T2>
-    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T2>(src) {}
+    inline			matrix (const matrix<NX,NY,T2>& src) : tuple_type(src) {}
     inline			matrix (const matrix<NX,NY,T>& src) : tuple<NX*NY,T>(src) {}
     inline size_type		columns (void) const		{ return NX; }
     inline size_type		rows (void) const		{ return NY; }
-- 
2.43.0


From 1c929594321579a9f69426bb675c98439e03b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 103/159] fix: 4x4 float load_identity changed an input
 register and relied on its upper part

---
 ulaalgo.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index b727e5a..98a693d 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -68,18 +68,20 @@ void transpose (matrix<N,N,T>& m)
 template <>
 inline void load_identity (matrix<4,4,float>& m)
 {
+    const float one = 1.0f;
     asm (
-	"movaps %4, %%xmm1		\n\t"	// 1 0 0 0
-	"movups %4, %0			\n\t"	// 1 0 0 0
+	"movss %4, %%xmm0		\n\t"	// 1 0 0 0
+	"movaps %%xmm0, %%xmm1		\n\t"	// 1 0 0 0
+	"movups %%xmm0, %0		\n\t"	// 1 0 0 0
 	"shufps $0xB1,%%xmm1,%%xmm1	\n\t"	// 0 1 0 0
 	"movups %%xmm1, %1		\n\t"	// 0 1 0 0
-	"shufps $0x4F,%4,%%xmm1		\n\t"	// 0 0 1 0
-	"shufps $0x1B,%4,%4		\n\t"	// 0 0 0 1
+	"shufps $0x4F,%%xmm0,%%xmm1	\n\t"	// 0 0 1 0
+	"shufps $0x1B,%%xmm0,%%xmm0	\n\t"	// 0 0 0 1
 	"movups %%xmm1, %2		\n\t"	// 0 0 1 0
-	"movups %4, %3"				// 0 0 0 1
+	"movups %%xmm0, %3"			// 0 0 0 1
 	: "=m"(m[0][0]), "=m"(m[1][0]), "=m"(m[2][0]), "=m"(m[3][0])
-	: "x"(1.0f)
-	: "xmm1", "memory"
+	: "m"(one)
+	: "xmm0", "xmm1", "memory"
     );
     asm ("":::"memory");
 }
-- 
2.43.0


From 381ea8678ca0d2831ac0486a214b145a0b3ff1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 104/159] fix: array arithmetic with a shorter list of values
 read past the list

---
 uarray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/uarray.h b/uarray.h
index aa89cbc..40affd0 100644
--- a/uarray.h
+++ b/uarray.h
@@ -30,14 +30,14 @@ public:
 public:
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] += v.begin()[i]; return *this; }
-    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] -= v.begin()[i]; return *this; }
-    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] *= v.begin()[i]; return *this; }
-    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] /= v.begin()[i]; return *this; }
-    constexpr auto		operator+ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] + v.begin()[i]; return result; }
-    constexpr auto		operator- (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] - v.begin()[i]; return result; }
-    constexpr auto		operator* (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] * v.begin()[i]; return result; }
-    constexpr auto		operator/ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] / v.begin()[i]; return result; }
+    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < min(N,v.size()); ++i) _v[i] += v.begin()[i]; return *this; }
+    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < min(N,v.size()); ++i) _v[i] -= v.begin()[i]; return *this; }
+    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < min(N,v.size()); ++i) _v[i] *= v.begin()[i]; return *this; }
+    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < min(N,v.size()); ++i) _v[i] /= v.begin()[i]; return *this; }
+    constexpr auto		operator+ (initlist_t v) const		{ array result (*this); result += v; return result; }
+    constexpr auto		operator- (initlist_t v) const		{ array result (*this); result -= v; return result; }
+    constexpr auto		operator* (initlist_t v) const		{ array result (*this); result *= v; return result; }
+    constexpr auto		operator/ (initlist_t v) const		{ array result (*this); result /= v; return result; }
 #else
     inline			array (void)				{ fill_n (_v, N, T()); }
     template <typename T2>
-- 
2.43.0


From 1d7e143235bb46a8f207c9bd79ed3915b0e4f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 105/159] fix: rounding of doubles and conversions of large
 integers went through float

---
 simd.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/simd.h b/simd.h
index a9459a7..1ff27a3 100644
--- a/simd.h
+++ b/simd.h
@@ -101,11 +101,7 @@ STD_UNARY_FUNCTOR (fprecipsqrt,	T, (reset_mmx(), 1 / T(sqrt (a))))
 STD_UNARY_FUNCTOR (fsin,	T, (reset_mmx(), T (sin (a))))
 STD_UNARY_FUNCTOR (fcos,	T, (reset_mmx(), T (cos (a))))
 STD_UNARY_FUNCTOR (ftan,	T, (reset_mmx(), T (tan (a))))
-#if HAVE_RINTF
-STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rintf(a))))
-#else
 STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rint(a))))
-#endif
 template <> inline int32_t fround<double,int32_t>::operator()(const double& a) const { reset_mmx(); return int32_t(rint(a)); }
 #endif
 template <> inline float fpavg<float>::operator()(const float& a, const float& b) const { return (a + b) / 2; }
-- 
2.43.0


From 28d87fbef12565ac677158b2f9da58e74d0aa557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 106/159] fix: three operand packed operations did not find
 passign

---
 simd.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simd.h b/simd.h
index 1ff27a3..d96e723 100644
--- a/simd.h
+++ b/simd.h
@@ -46,15 +46,6 @@ inline void packop (const Ctr& op1, Ctr& op2, BinaryOperation op)
 	*i2 = op (*i2, *i1);
 }
 
-/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
-template <typename Ctr, typename BinaryOperation>
-inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
-{
-    assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    packop (op2, result, op);
-}
-
 /// Copies \p op1 into \p result.
 template <typename Ctr>
 inline void passign (const Ctr& op1, Ctr& result)
@@ -65,6 +56,15 @@ inline void passign (const Ctr& op1, Ctr& result)
 	*d++ = *s;
 }
 
+/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
+template <typename Ctr, typename BinaryOperation>
+inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
+{
+    assert (op1.size() <= op2.size() && op1.size() <= result.size());
+    passign (op1, result);
+    packop (op2, result, op);
+}
+
 /// Copies \p result.size() elements from \p op1 to \p result.
 template <typename Ctr>
 inline void ipassign (typename Ctr::const_iterator op1, Ctr& result)
-- 
2.43.0


From 9e6bb10227be3a6382b53c8a06f2021d94eb0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 107/159] fix: duration_cast converted to the target type
 before scaling, losing fractions and large counts

---
 uchrono.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..1948086 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -18,9 +18,13 @@ template <typename Rep, typename Period> struct duration;
 template <typename ToDuration, typename Rep, typename Period>
 struct __duration_cast_impl {
     using to_rep	= typename ToDuration::rep;
+    // Plain numbers are scaled in the wider of the two types, and intmax_t
+    template <bool, typename T> struct calc_rep { using type = decltype (T() * Rep() * intmax_t()); };
+    template <typename T> struct calc_rep<false,T> { using type = T; };
+    using calc_rep_t	= typename calc_rep<is_arithmetic<to_rep>::value && is_arithmetic<Rep>::value, to_rep>::type;
     using conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     static inline constexpr ToDuration cast (const duration<Rep, Period>& d)
-	{ return ToDuration (static_cast<to_rep>(d.count()) * conv_ratio::num / conv_ratio::den); }
+	{ return ToDuration (static_cast<to_rep>(static_cast<calc_rep_t>(d.count()) * conv_ratio::num / conv_ratio::den)); }
 };
 
 /// Converts durations of different periods or representations
-- 
2.43.0


From 74a80a910a873a98b46aa8bfa0772bde0a0d4445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 108/159] fix: durations of different units could not be
 compared

---
 uchrono.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 1948086..8ea8999 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -100,25 +100,25 @@ struct duration {
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) == v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return operator== (duration(v)); }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) < v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return operator< (duration(v)); }
 
     inline void			read (istream& is)		{ is >> _r; }
-- 
2.43.0


From a77c1bf0c1517cf21e1068470207044432ac935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 109/159] fix: incrementing hrtime_t to a full second left a
 billion nanoseconds

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 8ea8999..2828512 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -193,7 +193,7 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
     inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-- 
2.43.0


From 3b7ccc4f5098add1025f55924fb08f112a275c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 110/159] fix: dividing hrtime_t did not divide the remaining
 seconds

---
 uchrono.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 2828512..a4df3c1 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -234,11 +234,22 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
-				    tv_nsec += (tv_sec % v) * nano::den;
+				    if (tv_sec < 0 && tv_nsec > 0) {
+					tv_nsec -= nano::den;	// truncate towards zero
+					++tv_sec;
+				    }
+				    tv_nsec = ((tv_sec % v) * nano::den + tv_nsec) / v;
 				    tv_sec /= v;
+				    normalize();
 				    return *this;
 				}
+    constexpr void		normalize (void) {
+				    tv_sec += tv_nsec / nano::den;
+				    if (0 > (tv_nsec %= nano::den)) {
+					tv_nsec += nano::den;
+					--tv_sec;
+				    }
+				}
     inline constexpr hrtime_t	operator+ (const hrtime_t& v) const	{ hrtime_t r(*this); return r += v; }
     inline constexpr hrtime_t	operator- (const hrtime_t& v) const	{ hrtime_t r(*this); return r -= v; }
     inline constexpr hrtime_t	operator* (intmax_t v) const		{ hrtime_t r(*this); return r *= v; }
-- 
2.43.0


From f9da5c7378d87e7a397bb492972b533fb08ab9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 111/159] fix: multiplying hrtime_t did not normalise negative
 results and overflowed its nanoseconds

---
 uchrono.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index a4df3c1..2991e9b 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -226,11 +226,9 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator*= (intmax_t v) {
-				    tv_sec *= v;
-				    if (nano::den <= (tv_nsec *= v)) {
-					tv_sec += tv_nsec / nano::den;
-					tv_nsec %= nano::den;
-				    }
+				    tv_sec = tv_sec * v + tv_nsec * (v / nano::den);
+				    tv_nsec *= v % nano::den;
+				    normalize();
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-- 
2.43.0


From 7d20b7df4d3a789a38e2935dae055c7bd9c50de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 112/159] fix: negative hrtime_t values had different
 representations depending on how they were made

---
 uchrono.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 2991e9b..32d55ad 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -184,14 +184,14 @@ struct hrtime_t : public timespec {
     constexpr hrtime_t&		operator= (const hrtime_t&) = default;
     inline explicit constexpr	hrtime_t (const timespec& v)	: timespec(v){}
     inline constexpr		hrtime_t (time_t s, long ns)	: timespec{s,ns}{}
-    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{}
-    inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
-    inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
+    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{ normalize(); }
+    inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{ normalize(); }
+    inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{ normalize(); }
     inline constexpr		operator intmax_t (void) const	{ return intmax_t(tv_sec)*nano::den + tv_nsec; }
     inline constexpr		operator float (void) const	{ return float(tv_nsec)/nano::den + tv_sec; }
     inline constexpr		operator double (void) const	{ return double(tv_nsec)/nano::den + tv_sec; }
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
-    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
+    inline constexpr hrtime_t	operator- (void) const		{ hrtime_t r(-tv_sec,-tv_nsec); r.normalize(); return r; }
     constexpr hrtime_t&		operator++ (void) {
 				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
-- 
2.43.0


From 4fd040c9c039e152d5985369898a784c1341ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 113/159] fix: negative hrtime_t values printed as other values

---
 uchrono.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 32d55ad..2c1ee1c 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -256,7 +256,12 @@ struct hrtime_t : public timespec {
     inline constexpr bool	operator< (const hrtime_t& v) const	{ return tv_sec < v.tv_sec || (tv_sec == v.tv_sec && tv_nsec < v.tv_nsec); }
     inline void			read (istream& is)			{ is >> tv_sec >> tv_nsec; }
     inline void			write (ostream& os) const		{ os << tv_sec << tv_nsec; }
-    void			text_write (ostringstream& os) const	{ os.format ("%ld.%09ld", tv_sec, tv_nsec); }
+    void			text_write (ostringstream& os) const {
+				    if (tv_sec < 0 && tv_nsec > 0)
+					os.format ("-%ld.%09ld", -(tv_sec+1), long(nano::den)-tv_nsec);
+				    else
+					os.format ("%ld.%09ld", tv_sec, tv_nsec);
+				}
     inline constexpr streamsize	stream_size (void) const		{ return stream_size_of(tv_sec) + stream_size_of(tv_nsec); }
 };
 
-- 
2.43.0


From 1aff394364b078eb94b8ac88efd8521c8f704c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 114/159] fix: the minimum of hrtime_t durations was not their
 smallest value

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 2c1ee1c..c327557 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -270,7 +270,7 @@ template <> struct duration_values<hrtime_t> {
     static constexpr hrtime_t zero (void)
 	{ return hrtime_t(); }
     static constexpr hrtime_t min (void)
-	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), nano::den-1); }
+	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), 0); }
     static constexpr hrtime_t max (void)
 	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::max(), nano::den-1); }
 };
-- 
2.43.0


From 0e8fa955c34d89b29dd5a96313c83e3dafebd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 115/159] fix: negative hrtime_t durations were rounded down
 and not toward zero when converted, and seconds were scaled by the wrong
 ratio

---
 uchrono.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index c327557..809a08b 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -283,9 +283,13 @@ template <typename ToDuration, typename Period>
 struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     using to_rep	= typename ToDuration::rep;
     using ns_conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
-    using s_conv_ratio	= typename ratio_divide<ns_conv_ratio, Period>::type;
+    using s_conv_ratio	= typename ratio_divide<ns_conv_ratio, nano>::type;
     static inline constexpr ToDuration cast (const duration<hrtime_t, Period>& d) {
-	auto& t = d.count();
+	auto t = d.count();
+	if (t.tv_sec < 0 && t.tv_nsec > 0) {	// truncate towards zero
+	    t.tv_nsec -= nano::den;
+	    ++t.tv_sec;
+	}
 	return ToDuration (
 		static_cast<to_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
 		+ static_cast<to_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den);
-- 
2.43.0


From 343792101e0680dd97d9be41dfeecc092f0d6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 116/159] fix: ratio::type was not in lowest terms

---
 uratio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uratio.h b/uratio.h
index a5a6ceb..4e32b82 100644
--- a/uratio.h
+++ b/uratio.h
@@ -12,10 +12,10 @@ namespace ustl {
 template <intmax_t N, intmax_t D = 1>
 struct ratio {
     static_assert (D, "denominator cannot be zero");
-    using type = ratio<N,D>;
     enum : intmax_t { init_gcd = gcd(N,D) };
     static constexpr intmax_t num = N*sign(D) / init_gcd;
     static constexpr intmax_t den = absv(D) / init_gcd;
+    using type = ratio<num,den>;
     void text_write (ostringstream& os) const
 	{ os.format ("%jd/%jd", num, den); }
 };
-- 
2.43.0


From da306bee5e39c3a0adb437330676944d68ac8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 117/159] fix: hrtime_t durations converted to narrow types
 were scaled in the narrow type

---
 uchrono.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 809a08b..deef08d 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -282,6 +282,7 @@ template <> struct treat_as_floating_point<hrtime_t> : public true_type {};
 template <typename ToDuration, typename Period>
 struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     using to_rep	= typename ToDuration::rep;
+    using calc_rep_t	= decltype (to_rep() * intmax_t());
     using ns_conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     using s_conv_ratio	= typename ratio_divide<ns_conv_ratio, nano>::type;
     static inline constexpr ToDuration cast (const duration<hrtime_t, Period>& d) {
@@ -290,9 +291,9 @@ struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
 	    t.tv_nsec -= nano::den;
 	    ++t.tv_sec;
 	}
-	return ToDuration (
-		static_cast<to_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
-		+ static_cast<to_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den);
+	return ToDuration (static_cast<to_rep>(
+		static_cast<calc_rep_t>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
+		+ static_cast<calc_rep_t>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den));
     }
 };
 
-- 
2.43.0


From 42cfbaa30e44c0316170964d532337eb4e5813e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 118/159] fix: floating point durations became hrtime_t ones a
 billion times as long

---
 uchrono.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/uchrono.h b/uchrono.h
index deef08d..3bc846c 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -297,6 +297,18 @@ struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     }
 };
 
+// Floating point values make hrtime_t from seconds
+template <typename Period>
+struct __duration_cast_impl<duration<hrtime_t,nano>, double, Period> {
+    static inline constexpr duration<hrtime_t,nano> cast (const duration<double, Period>& d)
+	{ return duration<hrtime_t,nano> (hrtime_t (d.count() * Period::num / Period::den)); }
+};
+template <typename Period>
+struct __duration_cast_impl<duration<hrtime_t,nano>, float, Period> {
+    static inline constexpr duration<hrtime_t,nano> cast (const duration<float, Period>& d)
+	{ return duration<hrtime_t,nano> (hrtime_t (double(d.count()) * Period::num / Period::den)); }
+};
+
 //}}}-------------------------------------------------------------------
 //{{{ time_point
 
-- 
2.43.0


From a73bd474897d8d4110fdd39a01cba1b17a728a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 119/159] fix: dropping a shared_ptr read the count again after
 decrementing it, so concurrent drops destroyed twice

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 3d99053..532fc33 100644
--- a/umemory.h
+++ b/umemory.h
@@ -185,7 +185,7 @@ public:
 				    assert (p != get() || !p);
 				    auto ov = _p;
 				    _p = p ? new container(p) : nullptr;
-				    if (ov && !--ov->refs)
+				    if (ov && !ov->refs.sub_fetch (1))
 					delete ov;
 				}
     inline void			swap (shared_ptr& v)		{ ::ustl::swap (_p, v._p); }
-- 
2.43.0


From 0fbefadd7177d0431a523caa9779688ec7530850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 120/159] fix: assigning an empty array unique_ptr to an empty
 one was refused

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 532fc33..1a6aad2 100644
--- a/umemory.h
+++ b/umemory.h
@@ -112,7 +112,7 @@ public:
     inline			~unique_ptr (void)		{ delete [] _p; }
     inline constexpr pointer	get (void) const		{ return _p; }
     inline pointer			release (void)			{ auto rv (_p); _p = nullptr; return rv; }
-    inline void			reset (pointer p)		{ assert (p != _p); auto ov (_p); _p = p; delete [] ov; }
+    inline void			reset (pointer p)		{ assert (p != _p || !p); auto ov (_p); _p = p; delete [] ov; }
     inline void			swap (unique_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return _p != nullptr; }
     inline unique_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-- 
2.43.0


From 0628e63f8e70108cb59af7093ebf9257507c4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 121/159] fix: postfix increment and decrement of atomics could
 not be used

---
 uatomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..adf91b7 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,8 +67,8 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
     inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
     inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
     inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-- 
2.43.0


From a6e9dad28247930535de463924cc8f4326f3d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 122/159] fix: auto_ptr compared in reverse order

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 1a6aad2..c5127c0 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From 53a4dad03302bcc9d899af0ab2cb323186c08244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 123/159] fix: use_count and unique of shared_ptr did not
 compile

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index c5127c0..29f76dd 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,7 +178,7 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
-- 
2.43.0


From c866f30bd2d92852afeb5fc06a4640572e44fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 124/159] fix: numeric_limits of a signed wchar_t said it was
 unsigned with no negative values

---
 ulimits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulimits.h b/ulimits.h
index 626066d..9ae2dcb 100644
--- a/ulimits.h
+++ b/ulimits.h
@@ -272,7 +272,7 @@ _NUMERIC_LIMITS (unsigned char,	0,		UCHAR_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned int,	0,		UINT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned short,0,		USHRT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned long,	0,		ULONG_MAX,	false,	true,	true);
-_NUMERIC_LIMITS (wchar_t,	0,		WCHAR_MAX,	false,	true,	true);
+_NUMERIC_LIMITS (wchar_t,	WCHAR_MIN,	WCHAR_MAX,	WCHAR_MIN < 0,	true,	true);
 #if HAVE_LONG_LONG
 _NUMERIC_LIMITS (long long,	LLONG_MIN,	LLONG_MAX,	true,	true,	true);
 _NUMERIC_LIMITS (unsigned long long,	0,	ULLONG_MAX,	false,	true,	true);
-- 
2.43.0


From f6691d66a019243eb5e9a77b5a3bb7246368a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 125/159] fix: BitMask of no bits was a full mask for the
 larger types

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index 3c13f29..174ce69 100644
--- a/uutility.h
+++ b/uutility.h
@@ -21,7 +21,7 @@ namespace ustl {
 #define BitsInType(t)	(sizeof(t) * CHAR_BIT)
 
 /// Returns the mask of type \p t with the lowest \p n bits set.
-#define BitMask(t,n)	(t(~t(0)) >> (BitsInType(t) - (n)))
+#define BitMask(t,n)	((n) ? t(~t(0)) >> (BitsInType(t) - (n)) : t(0))
 
 /// Argument that is used only in debug builds (as in an assert)
 #ifndef NDEBUG
-- 
2.43.0


From 3cac0d36a9d68f65305ea85148e28237fedcb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 126/159] fix: gcd and lcm of types smaller than int did not
 compile, and lcm(0,0) divided by zero

---
 uutility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uutility.h b/uutility.h
index 174ce69..83b75bd 100644
--- a/uutility.h
+++ b/uutility.h
@@ -120,14 +120,14 @@ inline constexpr T sign (T v)
 template <typename T>
 constexpr T gcd (T a, T b)
 {
-    return b ? gcd(b,a%b) : absv(a);
+    return b ? gcd<T>(b,a%b) : absv(a);
 }
 
 /// Returns the least common multiple
 template <typename T>
 constexpr T lcm (T a, T b)
 {
-    return a/gcd(a,b)*b;
+    return a ? T(a/gcd(a,b)*b) : a;
 }
 
 // Defined in byteswap.h, which is usually unusable.
-- 
2.43.0


From f64b3979f02030e024d92d0a3f4bfe375245f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 127/159] fix: DivRU gave 0 when the numerator was close to the
 maximum of its type

---
 uutility.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uutility.h b/uutility.h
index 83b75bd..a040866 100644
--- a/uutility.h
+++ b/uutility.h
@@ -219,10 +219,10 @@ inline constexpr void pack_type (TSmall s, TBig& b)
 template <typename T1, typename T2>
 inline constexpr T1 DivRU (T1 n1, T2 n2)
 {
-    T2 adj = n2 - 1;
-    if (is_negative (n1))
-	adj = -adj;
-    return (n1 + adj) / n2;
+    T1 q = n1 / n2;
+    if (n1 % n2)
+	is_negative (n1) ? --q : ++q;
+    return q;
 }
 
 /// Sets the contents of \p pm to 1 and returns true if the previous value was 0.
-- 
2.43.0


From ddf18874b935c42cee576fc1958cbd5647106c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 128/159] fix: rotating negative values copied the sign bit,
 and rotating by 0 shifted by the full width

---
 uutility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uutility.h b/uutility.h
index a040866..d7a322d 100644
--- a/uutility.h
+++ b/uutility.h
@@ -290,14 +290,14 @@ inline uint32_t NextPow2 (uint32_t v)
 template <typename T>
 inline constexpr T Rol (T v, size_t n)
 {
-    return (v << n) | (v >> (BitsInType(T)-n));
+    return (v << n) | ((v >> ((BitsInType(T)-n) % BitsInType(T))) & ~(T(-1) << n));
 }
 
 /// Bitwise rotate value right
 template <typename T>
 inline constexpr T Ror (T v, size_t n)
 {
-    return (v >> n) | (v << (BitsInType(T)-n));
+    return Rol (v, (BitsInType(T)-n) % BitsInType(T));
 }
 
 /// \brief This template is to be used for dereferencing a type-punned pointer without a warning.
-- 
2.43.0


From 67a6ac7f6adfdee7dbed1b9d7fb359cf3566220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 129/159] fix: inserters into a multimap did not compile

---
 umultimap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/umultimap.h b/umultimap.h
index 19d8837..0655f2a 100644
--- a/umultimap.h
+++ b/umultimap.h
@@ -62,6 +62,7 @@ public:
     inline void			assign (const_iterator i1, const_iterator i2) { clear(); insert (i1, i2); }
     inline void			push_back (const_reference v)		{ insert (v); }
     inline iterator		insert (const_reference v)		{ return base_class::insert (upper_bound (v.first), v); }
+    inline iterator		insert (const_iterator, const_reference v) { return insert (v); }
     void			insert (const_iterator i1, const_iterator i2)	{ for (; i1 != i2; ++i1) insert (*i1); }
     inline void			clear (void)				{ base_class::clear(); }
     inline void			erase (const_key_ref k)			{ erase (const_cast<iterator>(lower_bound(k)), const_cast<iterator>(upper_bound(k))); }
-- 
2.43.0


From c4ef99c0aaf2a2a7e8a2ae72388416d4fe1194bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 130/159] fix: move_iterator could not be dereferenced over
 fundamental types

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index cbfd1f2..6d79a92 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return static_cast<reference>(*(_i + n)); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From f01ea9ee85db479cbb2f7392bc2f5241da703f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 131/159] fix: objects already built by an uninitialized_
 algorithm were never destroyed when building a later one threw

---
 umemory.h | 102 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 36 deletions(-)

diff --git a/umemory.h b/umemory.h
index 29f76dd..dd8cbff 100644
--- a/umemory.h
+++ b/umemory.h
@@ -328,42 +328,6 @@ template <typename T>
 inline void construct (T* p)
     { construct_at(p); }
 
-/// Calls the placement new on \p p.
-/// \ingroup RawStorageAlgorithms
-///
-template <typename ForwardIterator>
-inline void uninitialized_default_construct (ForwardIterator first, ForwardIterator last)
-{
-    typedef typename iterator_traits<ForwardIterator>::value_type value_type;
-#if HAVE_CPP11
-    if (is_pod<value_type>::value)
-#else
-    if (numeric_limits<value_type>::is_integral)
-#endif
-	memset (static_cast<void*>(first), 0, max(distance(first,last),0)*sizeof(value_type));
-    else
-	for (--last; intptr_t(first) <= intptr_t(last); ++first)
-	    construct_at (&*first);
-}
-template <typename ForwardIterator>
-inline void uninitialized_default_construct_n (ForwardIterator first, size_t n)
-    { uninitialized_default_construct (first, first+n); }
-template <typename ForwardIterator>
-inline void construct (ForwardIterator first, ForwardIterator last)
-    { uninitialized_default_construct (first, last); }
-
-/// Calls the placement new on \p [first,last) with iterator_traits::value_type()
-template <typename ForwardIterator>
-inline void uninitialized_value_construct (ForwardIterator first, ForwardIterator last)
-{
-    typedef typename iterator_traits<ForwardIterator>::value_type value_type;
-    for (--last; intptr_t(first) <= intptr_t(last); ++first)
-	construct_at (&*first, value_type());
-}
-template <typename ForwardIterator>
-inline void uninitialized_value_construct_n (ForwardIterator first, size_t n)
-    { uninitialized_value_construct (first, first+n); }
-
 /// Calls the destructor of \p p without calling delete.
 /// \ingroup RawStorageAlgorithms
 ///
@@ -378,6 +342,19 @@ inline void destroy (T* p) noexcept
 // Helper templates to not instantiate anything for integral types.
 namespace {
 
+/// Destroys the objects built so far if building the rest of them throws.
+template <typename ForwardIterator>
+class partial_range {
+public:
+    inline explicit	partial_range (ForwardIterator& last)	: _first(last),_last(last),_bDone(false) {}
+    inline		~partial_range (void) noexcept		{ if (!_bDone) for (; _first != _last; ++_first) destroy_at (&*_first); }
+    inline void		complete (void)				{ _bDone = true; }
+private:
+    ForwardIterator	_first;
+    ForwardIterator&	_last;
+    bool		_bDone;
+};
+
 template <typename T>
 void dtors (T first, T last) noexcept
     { for (--last; intptr_t(first) <= intptr_t(last); ++first) destroy_at (&*first); }
@@ -408,6 +385,47 @@ template <typename ForwardIterator>
 inline void destroy_n (ForwardIterator first, size_t n) noexcept
     { destroy (first, first+n); }
 
+/// Calls the placement new on \p p.
+/// \ingroup RawStorageAlgorithms
+///
+template <typename ForwardIterator>
+inline void uninitialized_default_construct (ForwardIterator first, ForwardIterator last)
+{
+    typedef typename iterator_traits<ForwardIterator>::value_type value_type;
+#if HAVE_CPP11
+    if (is_pod<value_type>::value)
+#else
+    if (numeric_limits<value_type>::is_integral)
+#endif
+	memset (static_cast<void*>(first), 0, max(distance(first,last),0)*sizeof(value_type));
+    else {
+	partial_range<ForwardIterator> built (first);
+	for (--last; intptr_t(first) <= intptr_t(last); ++first)
+	    construct_at (&*first);
+	built.complete();
+    }
+}
+template <typename ForwardIterator>
+inline void uninitialized_default_construct_n (ForwardIterator first, size_t n)
+    { uninitialized_default_construct (first, first+n); }
+template <typename ForwardIterator>
+inline void construct (ForwardIterator first, ForwardIterator last)
+    { uninitialized_default_construct (first, last); }
+
+/// Calls the placement new on \p [first,last) with iterator_traits::value_type()
+template <typename ForwardIterator>
+inline void uninitialized_value_construct (ForwardIterator first, ForwardIterator last)
+{
+    typedef typename iterator_traits<ForwardIterator>::value_type value_type;
+    partial_range<ForwardIterator> built (first);
+    for (--last; intptr_t(first) <= intptr_t(last); ++first)
+	construct_at (&*first, value_type());
+    built.complete();
+}
+template <typename ForwardIterator>
+inline void uninitialized_value_construct_n (ForwardIterator first, size_t n)
+    { uninitialized_value_construct (first, first+n); }
+
 //}}}-------------------------------------------------------------------
 //{{{ Raw storage algorithms
 
@@ -440,8 +458,10 @@ inline pair<T*, ptrdiff_t> make_temporary_buffer (void* p, size_t n, const T* pt
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, ForwardIterator result)
 {
+    partial_range<ForwardIterator> built (result);
     for (; first < last; ++result, ++first)
 	construct_at (&*result, *first);
+    built.complete();
     return result;
 }
 
@@ -451,8 +471,10 @@ ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIterator result)
 {
+    partial_range<ForwardIterator> built (result);
     for (++n; --n; ++result, ++first)
 	construct_at (&*result, *first);
+    built.complete();
     return result;
 }
 
@@ -462,8 +484,10 @@ ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIter
 template <typename ForwardIterator, typename T>
 void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v)
 {
+    partial_range<ForwardIterator> built (first);
     for (; first < last; ++first)
 	construct_at (&*first, v);
+    built.complete();
 }
 
 /// Calls construct on all elements in [first, first + n) with value \p v.
@@ -472,8 +496,10 @@ void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v
 template <typename ForwardIterator, typename T>
 ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T& v)
 {
+    partial_range<ForwardIterator> built (first);
     for (++n; --n; ++first)
 	construct_at (&*first, v);
+    built.complete();
     return first;
 }
 
@@ -485,8 +511,10 @@ ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T&
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move (InputIterator first, InputIterator last, ForwardIterator result)
 {
+    partial_range<ForwardIterator> built (result);
     for (; first < last; ++result, ++first)
 	construct_at (&*result, move(*first));
+    built.complete();
     return result;
 }
 
@@ -496,8 +524,10 @@ ForwardIterator uninitialized_move (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move_n (InputIterator first, size_t n, ForwardIterator result)
 {
+    partial_range<ForwardIterator> built (result);
     for (++n; --n; ++result, ++first)
 	construct_at (&*result, move(*first));
+    built.complete();
     return result;
 }
 
-- 
2.43.0


From ca2ade12fadcb5cba4983cc2c47c9b6f2641a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 132/159] fix: a vector kept a destructible but never built
 element when building an added element threw

---
 uvector.h | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/uvector.h b/uvector.h
index 297657a..286b6f5 100644
--- a/uvector.h
+++ b/uvector.h
@@ -108,7 +108,7 @@ public:
     inline size_t		stream_size (void) const		{ return container_stream_size (*this); }
 #if HAVE_CPP11
     inline			vector (vector&& v)			: _data(move(v._data)) {}
-    inline			vector (std::initializer_list<T> v)	: _data() { uninitialized_copy_n (v.begin(), v.size(), append_hole(v.size())); }
+    inline			vector (std::initializer_list<T> v)	: _data() { uninitialized_copy_n (v.begin(), v.size(), append_hole(v.size())); accept_appended (v.size()); }
     inline vector&		operator= (vector&& v)			{ swap (v); return *this; }
     template <typename... Args>
     inline iterator		emplace (const_iterator ip, Args&&... args);
@@ -121,8 +121,9 @@ public:
 protected:
     inline iterator		insert_space (const_iterator ip, size_type n);
 private:
-    inline iterator		insert_hole (const_iterator ip, size_type n);
     inline iterator		append_hole (size_type n);
+    inline void			accept_appended (size_type n)	{ _data.memlink::resize (_data.size() + n*sizeof(T)); }
+    inline iterator		move_appended (uoff_t ipo, size_type n);
     void			destroy_all (void)
 				    { if (!is_linked()) destroy (begin(), end()); }
 private:
@@ -136,14 +137,22 @@ inline void vector<T>::reserve (size_type n, bool bExact)
     _data.reserve (n*sizeof(T), bExact);
 }
 
+/// Allocates space for \p n more elements. Once built there, they become
+/// a part of the vector by calling accept_appended or move_appended.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
 {
-    size_type nsz = _data.size() + n*sizeof(T);
-    _data.reserve (nsz);
-    iterator hp = end();
-    _data.memlink::resize (nsz);
-    return hp;
+    _data.reserve (_data.size() + n*sizeof(T));
+    return end();
+}
+
+/// Accepts \p n elements built in append_hole, moving them to byte offset \p ipo.
+template <typename T>
+inline typename vector<T>::iterator vector<T>::move_appended (uoff_t ipo, size_type n)
+{
+    accept_appended (n);
+    _data.memlink::insert (_data.iat(ipo), n*sizeof(T));
+    return iterator (_data.iat(ipo));
 }
 
 /// Resizes the vector to contain \p n elements.
@@ -203,6 +212,7 @@ vector<T>::vector (size_type n, const T& v)
 :_data()
 {
     uninitialized_fill_n (append_hole (n), n, v);
+    accept_appended (n);
 }
 
 /// Copies \p v.
@@ -211,6 +221,7 @@ vector<T>::vector (const vector<T>& v)
 :_data()
 {
     uninitialized_copy_n (v.begin(), v.size(), append_hole(v.size()));
+    accept_appended (v.size());
 }
 
 /// Copies range [\p i1, \p i2]
@@ -219,6 +230,7 @@ vector<T>::vector (const_iterator i1, const_iterator i2)
 :_data()
 {
     uninitialized_copy (i1, i2, append_hole(distance(i1,i2)));
+    accept_appended (distance(i1,i2));
 }
 
 /// Destructor
@@ -253,40 +265,31 @@ inline const vector<T>& vector<T>::operator= (const vector<T>& v)
     return *this;
 }
 
-/// Inserts \p n uninitialized elements at \p ip.
-template <typename T>
-inline typename vector<T>::iterator vector<T>::insert_hole (const_iterator ip, size_type n)
-{
-    const uoff_t ipmi = distance (_data.begin(), memblock::const_iterator(ip));
-    reserve (size() + n);
-    return iterator (_data.insert (_data.iat(ipmi), n * sizeof(T)));
-}
-
-/// Inserts \p n uninitialized elements at \p ip.
+/// Inserts \p n default elements at \p ip.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_space (const_iterator ip, size_type n)
 {
-    iterator ih = insert_hole (ip, n);
-    uninitialized_default_construct_n (ih, n);
-    return ih;
+    const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
+    uninitialized_default_construct_n (append_hole (n), n);
+    return move_appended (ipo, n);
 }
 
 /// Inserts \p n elements with value \p v at offsets \p ip.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_type n, const T& v)
 {
-    iterator d = insert_hole (ip, n);
-    uninitialized_fill_n (d, n, v);
-    return d;
+    const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
+    uninitialized_fill_n (append_hole (n), n, v);
+    return move_appended (ipo, n);
 }
 
 /// Inserts value \p v at offset \p ip.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const T& v)
 {
-    iterator d = insert_hole (ip, 1);
-    construct_at (d, v);
-    return d;
+    const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
+    construct_at (append_hole (1), v);
+    return move_appended (ipo, 1);
 }
 
 /// Inserts range [\p i1, \p i2] at offset \p ip.
@@ -294,9 +297,10 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const_iterator i1, const_iterator i2)
 {
     assert (i1 <= i2);
-    iterator d = insert_hole (ip, distance (i1, i2));
-    uninitialized_copy (i1, i2, d);
-    return d;
+    const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
+    const size_type n = distance (i1, i2);
+    uninitialized_copy (i1, i2, append_hole (n));
+    return move_appended (ipo, n);
 }
 
 /// Removes \p count elements at offset \p ep.
@@ -321,6 +325,7 @@ template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
     construct_at (append_hole(1), v);
+    accept_appended (1);
 }
 
 #if HAVE_CPP11
@@ -330,7 +335,9 @@ template <typename T>
 template <typename... Args>
 inline typename vector<T>::iterator vector<T>::emplace (const_iterator ip, Args&&... args)
 {
-    return new (insert_hole(ip,1)) T (forward<Args>(args)...);
+    const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
+    new (append_hole(1)) T (forward<Args>(args)...);
+    return move_appended (ipo, 1);
 }
 
 /// Constructs value at the end of the vector.
@@ -339,6 +346,7 @@ template <typename... Args>
 inline void vector<T>::emplace_back (Args&&... args)
 {
     new (append_hole(1)) T (forward<Args>(args)...);
+    accept_appended (1);
 }
 
 #endif
-- 
2.43.0


From 84bcde936cc2244b7930014a24dc2dc4f872df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 133/159] fix: size computations wrapped around for huge sizes,
 giving a small block instead of an allocation failure

---
 memblock.cc |  9 ++++++---
 memblock.h  |  4 ++++
 ustring.cc  | 14 +++++++-------
 uvector.h   |  8 ++++----
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index e98d002..5c2cc04 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -27,7 +27,7 @@ void memblock::unlink (void) noexcept
 /// resizes the block to \p newSize bytes, reallocating if necessary.
 void memblock::resize (size_type newSize, bool bExact)
 {
-    if (_capacity < newSize + minimumFreeCapacity())
+    if (_capacity < sum_size (newSize, minimumFreeCapacity()))
 	reserve (newSize, bExact);
     memlink::resize (newSize);
 }
@@ -79,7 +79,10 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
-    if ((newSize += minimumFreeCapacity()) <= _capacity)
+    const size_type minFree = minimumFreeCapacity();
+    if (newSize > SIZE_MAX-minFree)
+	throw bad_alloc (newSize);
+    if ((newSize += minFree) <= _capacity)
 	return;
     newSize = max (newSize, size() + minimumFreeCapacity());
     pointer oldBlock (is_linked() ? nullptr : data());
@@ -115,7 +118,7 @@ memblock::iterator memblock::insert (const_iterator start, size_type n)
 {
     const uoff_t ip = start - begin();
     assert (ip <= size());
-    resize (size() + n, false);
+    resize (sum_size (size(), n), false);
     memlink::insert (iat(ip), n);
     return iat (ip);
 }
diff --git a/memblock.h b/memblock.h
index fb38e1b..eda22f5 100644
--- a/memblock.h
+++ b/memblock.h
@@ -19,6 +19,10 @@ namespace ustl {
 /// freed in the destructor.
 ///
 class memblock : public memlink {
+public:
+    /// Combine sizes, giving one too large to allocate instead of wrapping around.
+    static constexpr size_type	sum_size (size_type a, size_type b)	{ return a+b < a ? SIZE_MAX : a+b; }
+    static constexpr size_type	mul_size (size_type n, size_type elsz)	{ return elsz && n > SIZE_MAX/elsz ? SIZE_MAX : n*elsz; }
 public:
     constexpr			memblock (void) noexcept	: memlink(), _capacity (0) {}
 				memblock (const void* p, size_type n);
diff --git a/ustring.cc b/ustring.cc
index 9d5ba88..a0569aa 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -39,7 +39,7 @@ string::string (const_pointer s) noexcept
 
 /// Creates a string of length \p n filled with character \p c.
 string::string (size_type n, value_type c)
-: memblock (n+1)	// +1 because base ctor can't call virtuals of this class
+: memblock (sum_size(n,1))	// +1 because base ctor can't call virtuals of this class
 {
     relink (begin(), size()-1);	// --m_Size
     fill_n (begin(), n, c);
@@ -82,7 +82,7 @@ string& string::append (const_pointer s)
 /// Appends to itself the value of string \p s of length \p len.
 string& string::append (const_pointer s, size_type len)
 {
-    resize (size() + len);
+    resize (sum_size (size(), len));
     copy_n (s, len, end() - len);
     return *this;
 }
@@ -90,7 +90,7 @@ string& string::append (const_pointer s, size_type len)
 /// Appends to itself \p n characters of value \p c.
 string& string::append (size_type n, value_type c)
 {
-    resize (size() + n);
+    resize (sum_size (size(), n));
     fill_n (end() - n, n, c);
     return *this;
 }
@@ -144,7 +144,7 @@ string::const_iterator string::wiat (pos_type i) const noexcept
 string& string::insert (pos_type ipo, size_type n, wvalue_type c)
 {
     iterator ip (iat(ipo));
-    ip = iterator (memblock::insert (memblock::iterator(ip), n * Utf8Bytes(c)));
+    ip = iterator (memblock::insert (memblock::iterator(ip), mul_size (n, Utf8Bytes(c))));
     fill_n (utf8out (ip), n, c);
     *end() = 0;
     return *this;
@@ -157,7 +157,7 @@ string& string::insert (pos_type ipo, const wvalue_type* first, const wvalue_typ
     size_type nti = distance (first, last), bti = 0;
     for (size_type i = 0; i < nti; ++ i)
 	bti += Utf8Bytes(first[i]);
-    ip = iterator (memblock::insert (memblock::iterator(ip), n * bti));
+    ip = iterator (memblock::insert (memblock::iterator(ip), mul_size (n, bti)));
     utf8out_iterator<string::iterator> uout (utf8out (ip));
     for (size_type j = 0; j < n; ++ j)
 	for (size_type k = 0; k < nti; ++ k, ++ uout)
@@ -188,7 +188,7 @@ string::iterator string::insert (const_iterator start, const_pointer first, cons
     assert (first <= last);
     assert (begin() <= start && end() >= start);
     assert ((first < begin() || first >= end() || size() + abs_distance(first,last) < capacity()) && "Insertion of self with autoresize is not supported");
-    memblock::iterator ip = iterator (memblock::insert (memblock::const_iterator(start), distance(first, last) * n));
+    memblock::iterator ip = iterator (memblock::insert (memblock::const_iterator(start), mul_size (n, distance(first, last))));
     fill (ip, first, distance(first, last), n);
     *end() = 0;
     return iterator(ip);
@@ -224,7 +224,7 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
     assert (n || distance(first, last));
     assert (first >= begin() && first <= end() && last >= first && last <= end());
     assert ((i1 < begin() || i1 >= end() || abs_distance(i1,i2) * n + size() < capacity()) && "Replacement by self can not autoresize");
-    const size_type bte = distance(first, last), bti = distance(i1, i2) * n;
+    const size_type bte = distance(first, last), bti = mul_size (n, distance(i1, i2));
     const uoff_t rpo = distance (const_iterator(begin()), first);
     copy_link();	// copy-on-write
     memblock::const_iterator rp = memblock::iat (rpo);
diff --git a/uvector.h b/uvector.h
index 286b6f5..6454ab3 100644
--- a/uvector.h
+++ b/uvector.h
@@ -134,7 +134,7 @@ private:
 template <typename T>
 inline void vector<T>::reserve (size_type n, bool bExact)
 {
-    _data.reserve (n*sizeof(T), bExact);
+    _data.reserve (memblock::mul_size (n, sizeof(T)), bExact);
 }
 
 /// Allocates space for \p n more elements. Once built there, they become
@@ -142,7 +142,7 @@ inline void vector<T>::reserve (size_type n, bool bExact)
 template <typename T>
 inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
 {
-    _data.reserve (_data.size() + n*sizeof(T));
+    _data.reserve (memblock::sum_size (_data.size(), memblock::mul_size (n, sizeof(T))));
     return end();
 }
 
@@ -159,7 +159,7 @@ inline typename vector<T>::iterator vector<T>::move_appended (uoff_t ipo, size_t
 template <typename T>
 void vector<T>::resize (size_type n)
 {
-    size_type nb = n*sizeof(T);
+    size_type nb = memblock::mul_size (n, sizeof(T));
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
@@ -173,7 +173,7 @@ void vector<T>::resize (size_type n)
 template <typename T>
 void vector<T>::resize (size_type n, const_reference v)
 {
-    size_type nb = n*sizeof(T);
+    size_type nb = memblock::mul_size (n, sizeof(T));
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
-- 
2.43.0


From ecca33c47af11234c12c8bec9079a72295739a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 134/159] fix: a shared_ptr that could not allocate its counter
 leaked the object given to it

---
 umemory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/umemory.h b/umemory.h
index dd8cbff..581a14a 100644
--- a/umemory.h
+++ b/umemory.h
@@ -172,9 +172,10 @@ private:
 	inline constexpr explicit container (pointer np) : p(np),refs(1) {}
 	inline	~container (void) noexcept { assert (!refs); delete p; }
     };
+    static container*		new_container (pointer p)	{ unique_ptr<T> owned (p); auto c = new container (p); owned.release(); return c; }
 public:
     inline constexpr		shared_ptr (void)		: _p (nullptr) {}
-    inline explicit		shared_ptr (pointer p)		: _p (new container (p)) {}
+    inline explicit		shared_ptr (pointer p)		: _p (new_container (p)) {}
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
@@ -184,7 +185,7 @@ public:
     void			reset (pointer p = nullptr) {
 				    assert (p != get() || !p);
 				    auto ov = _p;
-				    _p = p ? new container(p) : nullptr;
+				    _p = p ? new_container (p) : nullptr;
 				    if (ov && !ov->refs.sub_fetch (1))
 					delete ov;
 				}
-- 
2.43.0


From a63a28daac2e5ba7271b3b2c9884df1d990a375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 135/159] fix: a string was left unterminated at its size when
 format could not allocate

---
 ustring.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index a0569aa..c84e160 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -331,6 +331,8 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
+	if (wcap && rv >= wcap)
+	    memlink::resize (wcap-1);	// what fits, in case there is no memory for the rest
 	resize (max (rv, 0));
     } while (rv > 0 && rv >= wcap);
     return rv;
-- 
2.43.0


From 73ae270b09310c1c5aed57af5e08069ff4134380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 136/159] fix: opening a file leaked its descriptor when there
 was no memory to remember its name

---
 fstream.cc | 10 +++++++++-
 fstream.h  |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index d3d4b14..1d7dcd9 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -66,6 +66,12 @@ void fstream::attach (int nfd, const char* filename)
     assert (filename && "Don't do that");
     string newName;
     newName = filename;		// copied, because it may be the name closed below
+    attach (nfd, newName);
+}
+
+/// Attaches to the given \p nfd, swapping its name out of \p newName.
+void fstream::attach (int nfd, string& newName)
+{
     clear (goodbit);
     close();
     _filename.swap (newName);
@@ -111,8 +117,10 @@ int fstream::om_to_flags (openmode m) noexcept // static
 /// \warning The string at \p filename must exist until the object is closed.
 void fstream::open (const char* filename, openmode mode, mode_t perms)
 {
+    string newName;
+    newName = filename;		// allocated before there is a descriptor to leak
     int nfd = ::open (filename, om_to_flags(mode), perms);
-    attach (nfd, filename);
+    attach (nfd, newName);
 }
 
 /// Closes the file and throws on error.
diff --git a/fstream.h b/fstream.h
index 1f973b8..98d9001 100644
--- a/fstream.h
+++ b/fstream.h
@@ -59,6 +59,7 @@ public:
     inline void		flush (void)		{ sync(); }
     inline const string& name (void) const	{ return _filename; }
 private:
+    void		attach (int nfd, string& newName);
     static int		om_to_flags (openmode m) noexcept;
     void		set_and_throw (iostate s, const char* op);
 private:
-- 
2.43.0


From 8498dc2c49e2516d22a6d2b67b4cdc00c5e07205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 137/159] fix: is_signed of signed char was false

---
 uttraits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uttraits.h b/uttraits.h
index 0a4951d..0e99359 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -166,6 +166,9 @@ UNARY_TRAIT_DEFB (is_integral, __is_integral<remove_cv_t<T>>::value);
 
 UNARY_TRAIT_DEFN (__is_signed);
 UNARY_TRAIT_TRUE (__is_signed, char);
+#if HAVE_THREE_CHAR_TYPES
+UNARY_TRAIT_TRUE (__is_signed, signed char);
+#endif
 UNARY_TRAIT_TRUE (__is_signed, wchar_t);
 UNARY_TRAIT_TRUE (__is_signed, short);
 UNARY_TRAIT_TRUE (__is_signed, int);
-- 
2.43.0


From 9da280d7b61cc4bbaaedfd1038fad29c43254739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 138/159] fix: is_unsigned was true of every type that is not a
 signed number

---
 uttraits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 0e99359..189726c 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -201,7 +201,7 @@ UNARY_TRAIT_DEFB (is_member_function_pointer, __is_member_function_pointer<remov
 
 #endif	// __clang__
 
-UNARY_TRAIT_DEFB (is_unsigned, !is_signed<T>::value);
+UNARY_TRAIT_DEFB (is_unsigned, (is_integral<T>::value || is_floating_point<T>::value) && !is_signed<T>::value);
 UNARY_TRAIT_DEFB (is_member_object_pointer, is_member_pointer<T>::value && !is_member_function_pointer<T>::value);
 
 UNARY_TRAIT_DEFN (is_array);
-- 
2.43.0


From 0f109176eeecf01c8cd975ec125dda1b0083d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 139/159] fix: char16_t and char32_t were not integral types

---
 uttraits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uttraits.h b/uttraits.h
index 189726c..e0b3065 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -161,6 +161,8 @@ UNARY_TRAIT_TRUE (__is_integral, long long);
 UNARY_TRAIT_TRUE (__is_integral, unsigned long long);
 #endif
 UNARY_TRAIT_TRUE (__is_integral, wchar_t);
+UNARY_TRAIT_TRUE (__is_integral, char16_t);
+UNARY_TRAIT_TRUE (__is_integral, char32_t);
 UNARY_TRAIT_TRUE (__is_integral, bool);
 UNARY_TRAIT_DEFB (is_integral, __is_integral<remove_cv_t<T>>::value);
 
-- 
2.43.0


From acaee72eb4061eeda7ddb3677bda4addfdefc694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 140/159] fix: remove_pointer left qualified pointers as they
 were

---
 uttraits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uttraits.h b/uttraits.h
index e0b3065..35a18d3 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -80,6 +80,9 @@ template <typename T> using remove_reference_t = typename remove_reference<T>::t
 
 template <typename T> struct remove_pointer		{ using type = T; };
 template <typename T> struct remove_pointer<T*>		{ using type = T; };
+template <typename T> struct remove_pointer<T* const>	{ using type = T; };
+template <typename T> struct remove_pointer<T* volatile>{ using type = T; };
+template <typename T> struct remove_pointer<T* const volatile> { using type = T; };
 template <typename T> using remove_pointer_t = typename remove_pointer<T>::type;
 
 template <typename T> struct add_pointer		{ using type = T*; };
-- 
2.43.0


From 9d028defdb14ffbbd83b0e0db00156f180bfdaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 141/159] fix: add_pointer added none to a pointer, and did not
 compile for references and member function types

---
 uttraits.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index 35a18d3..a189951 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -85,10 +85,6 @@ template <typename T> struct remove_pointer<T* volatile>{ using type = T; };
 template <typename T> struct remove_pointer<T* const volatile> { using type = T; };
 template <typename T> using remove_pointer_t = typename remove_pointer<T>::type;
 
-template <typename T> struct add_pointer		{ using type = T*; };
-template <typename T> struct add_pointer<T*>		{ using type = T*; };
-template <typename T> using add_pointer_t = typename add_pointer<T>::type;
-
 template <typename T> struct remove_extent			{ using type = T; };
 template <typename T> struct remove_extent<T[]>			{ using type = T; };
 template <typename T, size_t N> struct remove_extent<T[N]>	{ using type = T; };
@@ -275,6 +271,11 @@ template <typename T> struct __add_rvalue_reference<T, true> { using type = T&&;
 template <typename T> struct add_rvalue_reference : public __add_rvalue_reference<T> {};
 template <typename T> using add_rvalue_reference_t = typename add_rvalue_reference<T>::type;
 
+template <typename T, bool = __is_referenceable<T>::value || is_void<T>::value> struct __add_pointer { using type = T; };
+template <typename T> struct __add_pointer<T, true> { using type = remove_reference_t<T>*; };
+template <typename T> struct add_pointer : public __add_pointer<T> {};
+template <typename T> using add_pointer_t = typename add_pointer<T>::type;
+
 /// Unusable default value for T. Use with decltype.
 template <typename T> add_rvalue_reference_t<T> declval (void) noexcept;
 
-- 
2.43.0


From abaafdd26b380f47c9570cf43704b8198f064708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 142/159] fix: is_member_function_pointer did not recognise
 pointers to qualified member functions

---
 uttraits.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index a189951..8dfbc3c 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -192,12 +192,8 @@ template <typename T, typename U> struct __is_member_pointer<U T::*> : public tr
 UNARY_TRAIT_DEFB (is_member_pointer, __is_member_pointer<remove_cv_t<T>>::value);
 
 UNARY_TRAIT_DEFN (__is_member_function_pointer);
-template <typename T, typename R> struct __is_member_function_pointer<R (T::*)(void)> : public true_type {};
-template <typename T, typename R> struct __is_member_function_pointer<R (T::*)(...)> : public true_type {};
-template <typename T, typename R, typename... Args>
-struct __is_member_function_pointer<R (T::*)(Args...)> : public true_type {};
-template <typename T, typename R, typename... Args>
-struct __is_member_function_pointer<R (T::*)(Args..., ...)> : public true_type {};
+template <typename T> struct is_function;
+template <typename T, typename U> struct __is_member_function_pointer<U T::*> : public is_function<U> {};
 UNARY_TRAIT_DEFB (is_member_function_pointer, __is_member_function_pointer<remove_cv_t<T>>::value);
 
 #endif	// __clang__
-- 
2.43.0


From 423adbe8c8c309b41ccde06be692a195814dfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 143/159] fix: nullptr_t was neither a scalar nor a fundamental
 type

---
 uttraits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index 8dfbc3c..0fd854a 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -253,8 +253,10 @@ struct __is_referenceable<R(Args...,...)> : public true_type {};
 //{{{ Composite type categories
 
 UNARY_TRAIT_DEFB (is_arithmetic,	is_integral<T>::value || is_floating_point<T>::value);
-UNARY_TRAIT_DEFB (is_fundamental,	is_arithmetic<T>::value || is_void<T>::value);
-UNARY_TRAIT_DEFB (is_scalar,		is_arithmetic<T>::value || is_enum<T>::value || is_pointer<T>::value || is_member_pointer<T>::value);
+UNARY_TRAIT_DEFN (__is_null_pointer);
+UNARY_TRAIT_TRUE (__is_null_pointer, decltype(nullptr));
+UNARY_TRAIT_DEFB (is_fundamental,	is_arithmetic<T>::value || is_void<T>::value || __is_null_pointer<remove_cv_t<T>>::value);
+UNARY_TRAIT_DEFB (is_scalar,		is_arithmetic<T>::value || is_enum<T>::value || is_pointer<T>::value || is_member_pointer<T>::value || __is_null_pointer<remove_cv_t<T>>::value);
 UNARY_TRAIT_DEFB (is_compound,		!is_fundamental<T>::value);
 
 template <typename T, bool = __is_referenceable<T>::value> struct __add_lvalue_reference { using type = T; };
-- 
2.43.0


From 792a9e3cd5fd49d1770f7157840416a412771020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 144/159] fix: is_trivially_copy_assignable and
 is_trivially_move_assignable asked about assignment to a temporary

---
 uttraits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index 0fd854a..652116d 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -416,8 +416,8 @@ template<typename T, typename U>
 struct is_trivially_assignable : public integral_constant<bool, __is_trivially_assignable(T, U)> {};
 
 UNARY_TRAIT_DEFB (is_trivially_default_constructible,	__is_trivially_constructible(T));
-UNARY_TRAIT_DEFB (is_trivially_copy_assignable,	__is_trivially_assignable(T,const T&));
-UNARY_TRAIT_DEFB (is_trivially_move_assignable,	__is_trivially_assignable(T,T&&));
+UNARY_TRAIT_DEFB (is_trivially_copy_assignable,	__is_trivially_assignable(T&,const T&));
+UNARY_TRAIT_DEFB (is_trivially_move_assignable,	__is_trivially_assignable(T&,T&&));
 #else
 UNARY_TRAIT_DEFB (is_trivially_copyable,		__has_trivial_copy(T));
 UNARY_TRAIT_DEFB (is_trivially_default_constructible,	__has_trivial_constructor(T));
-- 
2.43.0


From 326dd6cede1de1da2f6ac55a6dad116cb4403ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 145/159] fix: is_destructible and is_nothrow_destructible were
 wrong of arrays and references, or did not compile

---
 uttraits.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index 652116d..e007432 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -341,14 +341,20 @@ struct __is_destructible {
     template <typename T, typename = decltype(declval<T&>().~T())> static true_type test (int);
     template <typename T> static false_type test (...);
 };
-template <typename T> struct is_destructible : public decltype(__is_destructible::test<T>(0)) {};
+template <typename T> struct is_destructible : public decltype(__is_destructible::test<remove_all_extents_t<T>>(0)) {};
+template <typename T> struct is_destructible<T[]> : public false_type {};
+template <typename T> struct is_destructible<T&> : public true_type {};
+template <typename T> struct is_destructible<T&&> : public true_type {};
 
 struct __is_nothrow_destructible {
     template <typename T> static integral_constant<bool, noexcept(declval<T&>().~T())> test (int);
     template<typename> static false_type test (...);
 };
 template<typename T>
-struct is_nothrow_destructible : public decltype(__is_nothrow_destructible::test<T>(0)) {};
+struct is_nothrow_destructible : public decltype(__is_nothrow_destructible::test<remove_all_extents_t<T>>(0)) {};
+template <typename T> struct is_nothrow_destructible<T[]> : public false_type {};
+template <typename T> struct is_nothrow_destructible<T&> : public true_type {};
+template <typename T> struct is_nothrow_destructible<T&&> : public true_type {};
 
 struct __is_default_constructible {
     template <typename T, typename = decltype(T())> static true_type test (int);
-- 
2.43.0


From 916b75505cbb49c82e6be56e9060e9131db65d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 146/159] fix: is_default_constructible was false of arrays

---
 uttraits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index e007432..8b6ada5 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -360,13 +360,15 @@ struct __is_default_constructible {
     template <typename T, typename = decltype(T())> static true_type test (int);
     template <typename T> static false_type test (...);
 };
-template <typename T> struct is_default_constructible : public decltype(__is_default_constructible::test<T>(0)) {};
+template <typename T> struct is_default_constructible : public decltype(__is_default_constructible::test<remove_all_extents_t<T>>(0)) {};
+template <typename T> struct is_default_constructible<T[]> : public false_type {};
 
 struct __is_nothrow_default_constructible {
     template <typename T, typename = decltype(T())> static integral_constant<bool, noexcept(T())> test (int);
     template <typename T> static false_type test (...);
 };
-template <typename T> struct is_nothrow_default_constructible : public decltype(__is_nothrow_default_constructible::test<T>(0)) {};
+template <typename T> struct is_nothrow_default_constructible : public decltype(__is_nothrow_default_constructible::test<remove_all_extents_t<T>>(0)) {};
+template <typename T> struct is_nothrow_default_constructible<T[]> : public false_type {};
 
 template <typename T> struct is_constructible : public is_default_constructible<T> {};
 template <typename T> struct is_nothrow_constructible : public is_nothrow_default_constructible<T> {};
-- 
2.43.0


From d24ab048b2682191fa64751565bd35155641265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 147/159] fix: is_copy_constructible and is_move_constructible
 asked about casts, and about copying from a variable

---
 uttraits.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 8b6ada5..13079b6 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -373,8 +373,12 @@ template <typename T> struct is_nothrow_default_constructible<T[]> : public fals
 template <typename T> struct is_constructible : public is_default_constructible<T> {};
 template <typename T> struct is_nothrow_constructible : public is_nothrow_default_constructible<T> {};
 
+#if __clang_major__ > 3 || (__clang_major__ == 3 && __clang_minor__ >= 9) || __GNUC__ >= 8
+template <typename T> struct is_copy_constructible : public integral_constant<bool, __is_constructible(T,add_lvalue_reference_t<const T>)> {};
+template <typename T> struct is_move_constructible : public integral_constant<bool, __is_constructible(T,add_rvalue_reference_t<T>)> {};
+#else
 struct __is_copy_constructible {
-    template <typename T, typename = decltype(T(declval<T&>()))> static true_type test (int);
+    template <typename T, typename = decltype(T(declval<const T&>()))> static true_type test (int);
     template <typename T> static false_type test (...);
 };
 template <typename T> struct is_copy_constructible : public decltype(__is_copy_constructible::test<T>(0)) {};
@@ -384,6 +388,7 @@ struct __is_move_constructible {
     template <typename T> static false_type test (...);
 };
 template <typename T> struct is_move_constructible : public decltype(__is_move_constructible::test<T>(0)) {};
+#endif
 
 #if __clang_major__ > 3 || (__clang_major__ == 3 && __clang_minor__ >= 9) || __GNUC__ >= 8
 template <typename T, typename U> struct is_assignable : public integral_constant<bool, __is_assignable(T,U)> {};
-- 
2.43.0


From 69d31efc98607b776a044e43c92e415e15ea72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 148/159] fix: is_trivially_destructible was true of types that
 can not be destroyed

---
 uttraits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 13079b6..3e8a473 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -438,7 +438,7 @@ UNARY_TRAIT_DEFB (is_trivially_copy_assignable,		__has_trivial_assign(T));
 UNARY_TRAIT_DEFB (is_trivially_move_assignable,		false);
 #endif
 
-UNARY_TRAIT_DEFB (is_trivially_destructible,	__has_trivial_destructor(T));
+UNARY_TRAIT_DEFB (is_trivially_destructible,	is_destructible<T>::value && __has_trivial_destructor(T));
 UNARY_TRAIT_DEFB (has_trivial_copy_constructor,	__has_trivial_copy(T));
 UNARY_TRAIT_DEFB (has_trivial_copy_assign,	__has_trivial_assign(T));
 
-- 
2.43.0


From ec5586343ad69153658353212ea629a40e6e1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 149/159] fix: TypeTraits did not know long long and long
 double as standard types

---
 traits.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traits.h b/traits.h
index 71df5df..404feb0 100644
--- a/traits.h
+++ b/traits.h
@@ -15,11 +15,17 @@ namespace tm {
 // Type classes and type modifiers
 //----------------------------------------------------------------------
 
+#if HAVE_LONG_LONG
+typedef tl::Seq<unsigned char, unsigned short, unsigned, unsigned long, unsigned long long>::Type
+							StdUnsignedInts;
+typedef tl::Seq<signed char, short, int, long, long long>::Type	StdSignedInts;
+#else
 typedef tl::Seq<unsigned char, unsigned short, unsigned, unsigned long>::Type
 							StdUnsignedInts;
 typedef tl::Seq<signed char, short, int, long>::Type	StdSignedInts;
+#endif
 typedef tl::Seq<bool, char, wchar_t>::Type		StdOtherInts;
-typedef tl::Seq<float, double>::Type			StdFloats;
+typedef tl::Seq<float, double, long double>::Type	StdFloats;
 
 template <typename U> struct Identity			{ typedef U Result; };
 template <typename U> struct AddPointer			{ typedef U* Result; };
-- 
2.43.0


From 7d404bf86d1744af43d8887da1adaba50bdac3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 150/159] fix: TypeTraits of rvalue references did not compile

---
 traits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/traits.h b/traits.h
index 404feb0..686a45d 100644
--- a/traits.h
+++ b/traits.h
@@ -30,6 +30,9 @@ typedef tl::Seq<float, double, long double>::Type	StdFloats;
 template <typename U> struct Identity			{ typedef U Result; };
 template <typename U> struct AddPointer			{ typedef U* Result; };
 template <typename U> struct AddPointer<U&>		{ typedef U* Result; };
+#if HAVE_CPP11
+template <typename U> struct AddPointer<U&&>		{ typedef U* Result; };
+#endif
 template <typename U> struct AddReference		{ typedef U& Result; };
 template <typename U> struct AddReference<U&>		{ typedef U& Result; };
 template <>           struct AddReference<void>		{ typedef NullType Result; };
-- 
2.43.0


From cbd15f766fc4b641530f2b83fc693c4bc2201b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 151/159] fix: common_type did not compile for types that
 differ in qualifiers only

---
 uttraits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 3e8a473..e8544e7 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -328,7 +328,7 @@ template <typename ...T> struct common_type;
 template <typename T> struct common_type<T> { using type = decay_t<T>; };
 template <typename ...T> using common_type_t = typename common_type<T...>::type;
 template <typename T, typename U> struct common_type<T, U>
-    { using type = decay_t<decltype(true ? declval<T>() : declval<U>())>; };
+    { using type = decay_t<decltype(true ? declval<decay_t<T>>() : declval<decay_t<U>>())>; };
 template <typename T, typename U, typename... V>
 struct common_type<T, U, V...>
     { using type = common_type_t<common_type_t<T, U>, V...>; };
-- 
2.43.0


From 900809e064051b9bc43b97c7f05b1cc2c590ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 152/159] fix: appending, inserting or resizing with an element
 of the vector itself read freed memory when the storage moved

---
 uvector.h | 50 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/uvector.h b/uvector.h
index 6454ab3..2293826 100644
--- a/uvector.h
+++ b/uvector.h
@@ -114,14 +114,16 @@ public:
     inline iterator		emplace (const_iterator ip, Args&&... args);
     template <typename... Args>
     inline void			emplace_back (Args&&... args);
-    inline void			push_back (T&& v)			{ emplace_back (move(v)); }
-    inline iterator		insert (const_iterator ip, T&& v)	{ return emplace (ip, move(v)); }
+    inline void			push_back (T&& v)			{ T& mv = append_hole_for (1, v); construct_at (end(), move(mv)); accept_appended (1); }
+    inline iterator		insert (const_iterator ip, T&& v);
     inline iterator		insert (const_iterator ip, std::initializer_list<T> v)	{ return insert (ip, v.begin(), v.end()); }
 #endif
 protected:
     inline iterator		insert_space (const_iterator ip, size_type n);
 private:
     inline iterator		append_hole (size_type n);
+    template <typename U>
+    inline U&			append_hole_for (size_type n, U& v);
     inline void			accept_appended (size_type n)	{ _data.memlink::resize (_data.size() + n*sizeof(T)); }
     inline iterator		move_appended (uoff_t ipo, size_type n);
     void			destroy_all (void)
@@ -146,6 +148,17 @@ inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
     return end();
 }
 
+/// Allocates space for \p n more elements, to be built from \p v.
+/// Returns \p v, which moves with the storage if it is one of the elements.
+template <typename T>
+template <typename U>
+inline U& vector<T>::append_hole_for (size_type n, U& v)
+{
+    const uoff_t vo = uintptr_t(&v) - uintptr_t(_data.cdata());
+    append_hole (n);
+    return vo < _data.size() ? *reinterpret_cast<U*>(_data.begin()+vo) : v;
+}
+
 /// Accepts \p n elements built in append_hole, moving them to byte offset \p ipo.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::move_appended (uoff_t ipo, size_type n)
@@ -173,14 +186,12 @@ void vector<T>::resize (size_type n)
 template <typename T>
 void vector<T>::resize (size_type n, const_reference v)
 {
-    size_type nb = memblock::mul_size (n, sizeof(T));
-    _data.reserve (nb);
-    iterator inewend = iterator(_data.begin()+nb);
-    if (nb < _data.size())
-	destroy (inewend, end());
-    else
-	uninitialized_fill (end(), inewend, v);
-    _data.memlink::resize (nb);
+    if (n < size())
+	return resize (n);
+    n -= size();
+    const_reference mv = append_hole_for (n, v);
+    uninitialized_fill_n (end(), n, mv);
+    accept_appended (n);
 }
 
 /// Calls element destructors and frees storage.
@@ -279,7 +290,8 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_type n, const T& v)
 {
     const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
-    uninitialized_fill_n (append_hole (n), n, v);
+    const T& mv = append_hole_for (n, v);
+    uninitialized_fill_n (end(), n, mv);
     return move_appended (ipo, n);
 }
 
@@ -288,7 +300,8 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const T& v)
 {
     const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
-    construct_at (append_hole (1), v);
+    const T& mv = append_hole_for (1, v);
+    construct_at (end(), mv);
     return move_appended (ipo, 1);
 }
 
@@ -324,12 +337,23 @@ inline typename vector<T>::iterator vector<T>::erase (const_iterator ep1, const_
 template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
-    construct_at (append_hole(1), v);
+    const T& mv = append_hole_for (1, v);
+    construct_at (end(), mv);
     accept_appended (1);
 }
 
 #if HAVE_CPP11
 
+/// Inserts value \p v at offset \p ip.
+template <typename T>
+inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, T&& v)
+{
+    const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
+    T& mv = append_hole_for (1, v);
+    construct_at (end(), move(mv));
+    return move_appended (ipo, 1);
+}
+
 /// Constructs value at \p ip
 template <typename T>
 template <typename... Args>
-- 
2.43.0


From 9a140ce896d9a217f294b24c4f485bf9d3931b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 153/159] fix: list::remove of one of the elements removed
 others once that element was overwritten

---
 ulist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulist.h b/ulist.h
index 894e07b..fc7559f 100644
--- a/ulist.h
+++ b/ulist.h
@@ -37,7 +37,7 @@ public:
     inline void			pop_front (void)		{ this->erase (begin()); }
     inline const_reference	front (void) const		{ return *begin(); }
     inline reference		front (void)			{ return *begin(); }
-    inline void			remove (const T& v)		{ ::ustl::remove (*this, v); }
+    inline void			remove (const T& v)		{ const T t (v); ::ustl::remove (*this, t); }	// v may be one of the elements
     template <typename Predicate>
     inline void			remove_if (Predicate p)		{ ::ustl::remove_if (*this, p); }
     inline void			reverse (void)			{ ::ustl::reverse (*this); }
-- 
2.43.0


From 0f27ba34d0a0746af735e89c2ee2c19d90424df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 154/159] fix: appending a string or a part of it to itself
 read freed memory when the storage moved

---
 ustring.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index c84e160..6eafde5 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -82,8 +82,10 @@ string& string::append (const_pointer s)
 /// Appends to itself the value of string \p s of length \p len.
 string& string::append (const_pointer s, size_type len)
 {
+    const uoff_t so = uintptr_t(s) - uintptr_t(cdata());	// s may be a part of this string
+    const bool ofThis = so < size();
     resize (sum_size (size(), len));
-    copy_n (s, len, end() - len);
+    copy_n (ofThis ? begin()+so : s, len, end() - len);
     return *this;
 }
 
-- 
2.43.0


From c46470ecadecadb74a24db87bfb3df1bca7a8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:16 +0000
Subject: [PATCH 155/159] fix: tuple and array arithmetic with one of their own
 elements as the value

---
 uarray.h | 8 ++++----
 utuple.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/uarray.h b/uarray.h
index 40affd0..60842d4 100644
--- a/uarray.h
+++ b/uarray.h
@@ -67,10 +67,10 @@ public:
     inline void			write (ostream& os) const		{ nr_container_write (os, *this); }
     inline void			text_write (ostringstream& os) const	{ container_text_write (os, *this); }
     constexpr size_t		stream_size (void) const		{ return nr_container_stream_size (*this); }
-    constexpr array&		operator+= (const_reference v)		{ for (size_type i = 0; i < N; ++i) _v[i] += v; return *this; }
-    constexpr array&		operator-= (const_reference v)		{ for (size_type i = 0; i < N; ++i) _v[i] -= v; return *this; }
-    constexpr array&		operator*= (const_reference v)		{ for (size_type i = 0; i < N; ++i) _v[i] *= v; return *this; }
-    constexpr array&		operator/= (const_reference v)		{ for (size_type i = 0; i < N; ++i) _v[i] /= v; return *this; }
+    constexpr array&		operator+= (const_reference v)		{ const value_type c (v); for (size_type i = 0; i < N; ++i) _v[i] += c; return *this; }
+    constexpr array&		operator-= (const_reference v)		{ const value_type c (v); for (size_type i = 0; i < N; ++i) _v[i] -= c; return *this; }
+    constexpr array&		operator*= (const_reference v)		{ const value_type c (v); for (size_type i = 0; i < N; ++i) _v[i] *= c; return *this; }
+    constexpr array&		operator/= (const_reference v)		{ const value_type c (v); for (size_type i = 0; i < N; ++i) _v[i] /= c; return *this; }
     constexpr array		operator+ (const_reference v) const	{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] + v; return result; }
     constexpr array		operator- (const_reference v) const	{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] - v; return result; }
     constexpr array		operator* (const_reference v) const	{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] * v; return result; }
diff --git a/utuple.h b/utuple.h
index fd61d46..6d7c4f0 100644
--- a/utuple.h
+++ b/utuple.h
@@ -54,13 +54,13 @@ public:
     inline tuple&		operator= (const tuple<N,T2>& src);
     inline tuple&		operator= (const tuple<N,T>& src);
     inline tuple&		operator+= (const_reference v)
-				    { for (uoff_t i = 0; i < N; ++ i) _v[i] += v; return *this; }
+				    { const value_type c (v); for (uoff_t i = 0; i < N; ++ i) _v[i] += c; return *this; }
     inline tuple&		operator-= (const_reference v)
-				    { for (uoff_t i = 0; i < N; ++ i) _v[i] -= v; return *this; }
+				    { const value_type c (v); for (uoff_t i = 0; i < N; ++ i) _v[i] -= c; return *this; }
     inline tuple&		operator*= (const_reference v)
-				    { for (uoff_t i = 0; i < N; ++ i) _v[i] *= v; return *this; }
+				    { const value_type c (v); for (uoff_t i = 0; i < N; ++ i) _v[i] *= c; return *this; }
     inline tuple&		operator/= (const_reference v)
-				    { for (uoff_t i = 0; i < N; ++ i) _v[i] /= v; return *this; }
+				    { const value_type c (v); for (uoff_t i = 0; i < N; ++ i) _v[i] /= c; return *this; }
     inline tuple		operator+ (const_reference v) const
 				    { tuple result; for (uoff_t i = 0; i < N; ++ i) result[i] = _v[i] + v; return result; }
     inline tuple		operator- (const_reference v) const
-- 
2.43.0


From 681c9a84a3a35ff7b1d2c2aaa42f444737fc991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:21 +0000
Subject: [PATCH 156/159] fix: emplacing an element made from another element
 of the vector read freed memory when the storage moved

---
 uvector.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/uvector.h b/uvector.h
index 2293826..89cf0a0 100644
--- a/uvector.h
+++ b/uvector.h
@@ -126,6 +126,10 @@ private:
     inline U&			append_hole_for (size_type n, U& v);
     inline void			accept_appended (size_type n)	{ _data.memlink::resize (_data.size() + n*sizeof(T)); }
     inline iterator		move_appended (uoff_t ipo, size_type n);
+#if HAVE_CPP11
+    template <typename... Args>
+    inline void			emplace_appended (Args&&... args);
+#endif
     void			destroy_all (void)
 				    { if (!is_linked()) destroy (begin(), end()); }
 private:
@@ -354,13 +358,30 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, T&& v)
     return move_appended (ipo, 1);
 }
 
+/// Constructs a value past the end. \p args may refer to elements of this vector.
+template <typename T>
+template <typename... Args>
+inline void vector<T>::emplace_appended (Args&&... args)
+{
+    if (_data.size() + sizeof(T) <= _data.capacity())
+	new (append_hole(1)) T (forward<Args>(args)...);
+    else {	// growing invalidates args, so the value is made in the new storage first
+	memblock grown;
+	grown.reserve (memblock::sum_size (_data.size(), sizeof(T)));
+	new (grown.begin() + _data.size()) T (forward<Args>(args)...);
+	copy_n (_data.cdata(), _data.size(), grown.begin());
+	grown.memlink::resize (_data.size());
+	_data.swap (grown);
+    }
+}
+
 /// Constructs value at \p ip
 template <typename T>
 template <typename... Args>
 inline typename vector<T>::iterator vector<T>::emplace (const_iterator ip, Args&&... args)
 {
     const uoff_t ipo = distance (_data.begin(), memblock::const_iterator(ip));
-    new (append_hole(1)) T (forward<Args>(args)...);
+    emplace_appended (forward<Args>(args)...);
     return move_appended (ipo, 1);
 }
 
@@ -369,7 +390,7 @@ template <typename T>
 template <typename... Args>
 inline void vector<T>::emplace_back (Args&&... args)
 {
-    new (append_hole(1)) T (forward<Args>(args)...);
+    emplace_appended (forward<Args>(args)...);
     accept_appended (1);
 }
 
-- 
2.43.0


From 1eadcf79f9e7c3526415b840873c10a86ef728b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 157/159] fix: getline into an array left the delimiter when
 the array was full and the delimiter not yet buffered

---
 sistream.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sistream.cc b/sistream.cc
index ebc88d7..d254662 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -263,6 +263,13 @@ istringstream& istringstream::getline (string& s, char delim)
 istringstream& istringstream::getline (char* p, size_type n, char delim)
 {
     get (p, n, delim);
+    if (!remaining()) {	// the array is full; the delimiter may follow
+	const iostate oldState = rdstate(), oldExceptions = exceptions();
+	exceptions (goodbit);
+	underflow();
+	exceptions (oldExceptions);
+	clear (oldState);
+    }
     if (remaining() && ipos()[0] == delim) {
 	skip (1);
 	++_gcount;
-- 
2.43.0


From 80aa172df8a145057e7d489b3c010e143aa87422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:08 +0000
Subject: [PATCH 158/159] fix: compare of strings whose sizes differ by 2G or
 more had the wrong sign

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 6eafde5..a73f3b7 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -116,7 +116,7 @@ int string::compare (const_iterator first1, const_iterator last1, const_iterator
 {
     assert (first1 <= last1 && (first2 <= last2 || !last2) && "Negative ranges result in memory allocation errors.");
     const size_type len1 = distance (first1, last1), len2 = distance (first2, last2);
-    const int rvbylen = sign (int(len1 - len2));
+    const int rvbylen = len1 < len2 ? -1 : len1 > len2;
     int rv = memcmp (first1, first2, min (len1, len2));
     return rv ? rv : rvbylen;
 }
-- 
2.43.0


From 2ac8f8ec6796974dbecc689e5fb162a626f7df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 159/159] fix: set_nonblock terminated the program when fcntl
 failed and exceptions were on

---
 fstream.cc | 2 +-
 fstream.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 1d7dcd9..0ec2f52 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -240,7 +240,7 @@ int fstream::fcntl (const char* rname, int request, long argument)
     return rv;
 }
 
-void fstream::set_nonblock (bool v) noexcept
+void fstream::set_nonblock (bool v)
 {
     int curf = max (0, fcntl (FCNTLID (F_GETFL)));
     if (v) curf |=  O_NONBLOCK;
diff --git a/fstream.h b/fstream.h
index 98d9001..c695e5b 100644
--- a/fstream.h
+++ b/fstream.h
@@ -44,7 +44,7 @@ public:
     int			fcntl (const char* rname, int request, long argument = 0);
     inline int		fcntl (const char* rname, int request, int argument)	{ return fstream::fcntl (rname, request, long(argument)); }
     inline int		fcntl (const char* rname, int request, void* argument)	{ return fstream::fcntl (rname, request, intptr_t(argument)); }
-    void		set_nonblock (bool v = true) noexcept;
+    void		set_nonblock (bool v = true);
 #if HAVE_SYS_MMAN_H
     memlink		mmap (off_t n, off_t offset = 0);
     void		munmap (memlink& l);
-- 
2.43.0

