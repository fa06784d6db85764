From bb3a3b524857777c8c11f2131773c2ecd0ce1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 01/46] fix: array self-assignment lost the elements

---
 tpie/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..6f3c9e7 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
@@ -226,6 +227,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(array && other) {
+		if (this == &other) return *this;
 		resize(0);
 		std::swap(m_allocator, other.m_allocator);
 		std::swap(m_elements, other.m_elements);
-- 
2.43.0


From 9b52e59497059f79dd0078ebdd17abfb0bed3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 02/46] fix: array::resize left a freed buffer behind when the
 allocation threw

---
 tpie/array.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 6f3c9e7..261087b 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -494,7 +494,13 @@ public:
 			destruct_and_dealloc();
 			m_size = size;
 
-			alloc_fill(elm);
+			try {
+				alloc_fill(elm);
+			} catch (...) {
+				m_elements = 0;
+				m_size = 0;
+				throw;
+			}
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -522,7 +528,13 @@ public:
 	void resize(size_t s) {
 		destruct_and_dealloc();
 		m_size = s;
-		alloc_dfl();
+		try {
+			alloc_dfl();
+		} catch (...) {
+			m_elements = 0;
+			m_size = 0;
+			throw;
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2f7f1712feed5da683fab6fda72beaccca7ccdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 03/46] fix: std::copy on reverse array iterators used them as
 forward pointers

---
 tpie/array.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 261087b..e82782e 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -727,11 +727,11 @@ void swap(tpie::array<T> & a, tpie::array<T> & b) {
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT1, bool forward1, typename TT2, bool forward2>
-tpie::array_iter_base<TT2, forward2>
-copy(tpie::array_iter_base<TT1, forward1> first,
-     tpie::array_iter_base<TT1, forward1> last,
-	 tpie::array_iter_base<TT2, forward2> d_first) {
+template <typename TT1, typename TT2>
+tpie::array_iter_base<TT2, true>
+copy(tpie::array_iter_base<TT1, true> first,
+     tpie::array_iter_base<TT1, true> last,
+	 tpie::array_iter_base<TT2, true> d_first) {
 
 	ptrdiff_t dist = copy(&*first, &*last, &*d_first) - &*d_first;
 	return d_first + dist;
@@ -740,10 +740,10 @@ copy(tpie::array_iter_base<TT1, forward1> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as input.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename OutputIterator>
+template <typename TT, typename OutputIterator>
 OutputIterator
-copy(tpie::array_iter_base<TT, forward> first,
-     tpie::array_iter_base<TT, forward> last,
+copy(tpie::array_iter_base<TT, true> first,
+     tpie::array_iter_base<TT, true> last,
 	 OutputIterator d_first) {
 
 	return copy(&*first, &*last, d_first);
@@ -752,11 +752,11 @@ copy(tpie::array_iter_base<TT, forward> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as output.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename InputIterator>
-tpie::array_iter_base<TT, forward>
+template <typename TT, typename InputIterator>
+tpie::array_iter_base<TT, true>
 copy(InputIterator first,
 	 InputIterator last,
-	 tpie::array_iter_base<TT, forward> d_first) {
+	 tpie::array_iter_base<TT, true> d_first) {
 
 	ptrdiff_t dist = copy(first, last, &*d_first) - &*d_first;
 	return d_first + dist;
-- 
2.43.0


From 380560a6810d6e1bf5549102498f9130bc8a9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 04/46] fix: packed_array iterators moved forward on operator-=

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..3de2e9d 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() -= (forward?n:-n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From 5d0d40dad99e8f64ec964fd358e0ed8f24acad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 05/46] fix: packed_array with 32 or 64 bits per element
 shifted by too much

---
 tpie/packed_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 3de2e9d..7b7bdc7 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -125,7 +125,7 @@ private:
 	/// \brief Mask that will extract the lowest order logical element.
 	///////////////////////////////////////////////////////////////////////////
 	static storage_type mask() {
-		return (1 << B)-1;
+		return ~static_cast<storage_type>(0) >> (sizeof(storage_type) * 8 - B);
 	}
 
 	template <bool forward>
@@ -365,7 +365,7 @@ public:
 	void fill(T value) {
 		storage_type x=0;
 		for (size_t i=0; i < perword(); ++i) 
-			x = (x << B) + ((storage_type)value & mask());
+			x = ((x << (B-1)) << 1) + ((storage_type)value & mask());
 		for (size_t i=0; i < words(m_size); ++i)
 			m_elements[i] = x;		
 	}
-- 
2.43.0


From 46aef6b6b6e8f987149ca4abca084107f711998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 06/46] fix: assigning one dereferenced packed_array iterator
 to another stored nothing

---
 tpie/packed_array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 7b7bdc7..7a3d588 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -146,6 +146,11 @@ private:
 		size_t index;
 	public:
 		template <typename, int> friend class packed_array;
+		iter_return_type(const iter_return_type & o) = default;
+		iter_return_type & operator=(const iter_return_type & o) {
+			*this = (T) o;
+			return *this;
+		}
 		operator T() const {return static_cast<T>((elms[high(index)] >> low(index))&mask());}
 	 	iter_return_type & operator=(const T b) {
 			storage_type * p = elms+high(index);
-- 
2.43.0


From 4cd48e00983513321c16e92cac8dadcca23f32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 07/46] fix: packed_array::resize left a freed buffer behind
 when the allocation threw

---
 tpie/packed_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 7a3d588..b321919 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -358,8 +358,11 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		m_elements = nullptr;
+		m_size = 0;
+		if (s == 0) return;
+		m_elements = tpie_new_array<storage_type>(words(s));
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 670072bedf4da93cddbf8d09cbe8114f1e457d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 08/46] fix: a resource acquisition refused by ENFORCE_THROW
 stayed counted as used

---
 tpie/resource_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..b966191 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -57,6 +57,7 @@ void resource_manager::register_increased_usage(size_t amount) {
 	case ENFORCE_THROW: {
 		size_t usage = m_used.fetch_add(amount) + amount;
 		if (usage > m_limit && m_limit > 0) {
+			m_used.fetch_sub(amount);
 			std::stringstream ss;
 			print_resource_complaint(ss, amount, usage);
 			throw_out_of_resource_error(ss.str());
-- 
2.43.0


From 5bf8cc14ee251d67544ec91fe531512fd7748fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 09/46] fix: a file refused by the open file limit stayed open

---
 tpie/file_accessor/posix.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..3e9a3cb 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -109,7 +109,13 @@ void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
 	if (m_fd == -1) {
 		return;
 	}
-	get_file_manager().increment_open_file_count();
+	try {
+		get_file_manager().increment_open_file_count();
+	} catch (...) {
+		::close(m_fd);
+		m_fd = -1;
+		throw;
+	}
 	give_advice();
 }
 
-- 
2.43.0


From a718cdf872644ca227f207df03f5c3150a727d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 10/46] fix: tpie::allocator kept counting memory that could
 not be allocated

---
 tpie/memory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..f4f4883 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -399,8 +399,13 @@ public:
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
 		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
-		return res;
+		try {
+			return a.allocate(size);
+		} catch (...) {
+			if (bucket) bucket->count -= size * sizeof(T);
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
     }
 
     void deallocate(T * p, size_t n) {
-- 
2.43.0


From 7986e66b9b89868f8ba1e7a116b65b085a8f8756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 11/46] fix: reading past the end of a file looped forever

---
 tpie/file_accessor/posix.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 3e9a3cb..71003dc 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -75,6 +75,8 @@ inline void posix::read_i(void * data, memory_size_type size) {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
 		if (bytesRead == -1)
 			throw_errno();
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From 100cda2e585b7bbd227d2187719a85fdbf604ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 12/46] fix: tpie_new read the vtable of an object whose
 construction failed

---
 tpie/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index f4f4883..55cdeb4 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -235,7 +235,9 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate(data);
+		// the object may never have been constructed, so do not ask it for its address
+		uint8_t * p = reinterpret_cast<uint8_t *>(data);
+		if (p != nullptr) delete[] (std::is_polymorphic<T>::value ? p - sizeof(size_t) : p);
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
-- 
2.43.0


From b90008d8a744199492b97540a3f7e5392de45736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 13/46] fix: a file that failed to open as a stream stayed open

---
 tpie/file_accessor/stream_accessor_base.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..5afaa20 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,6 +134,10 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
+	struct close_on_failure {
+		file_accessor_t * f;
+		~close_on_failure() {if (f) f->close_i();}
+	} guard = {&m_fileAccessor};
 	if (write && !read) {
 		m_fileAccessor.open_wo(path);
 		write_header(false);
@@ -151,6 +155,7 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 			write_header(false);
 		}
 	}
+	guard.f = nullptr;
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
 		close();
-- 
2.43.0


From 50e4b701e126f9961b2fcfa9510d8e44d1291bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 14/46] fix: tiny::multiset and multimap ignored the comparator
 when inserting

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 52f7c6e..8622866 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -106,8 +106,8 @@ struct MultiInsertHelp {
 		typedef iterator result;
 		
 		template <typename Comp>
-		static result handle(Inner & inner, const Comp &) {
-			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back());
+		static result handle(Inner & inner, const Comp & comp) {
+			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back(), comp);
 			std::rotate(y, inner.end()-1, inner.end());
 			return y;
 		}
-- 
2.43.0


From 0a33703307510372fd377d01582d8765f93587f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 15/46] fix: tiny erase of a range returned begin instead of
 the following element

---
 tpie/tiny.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 8622866..b084b66 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -317,7 +317,7 @@ public:
 	iterator erase(iterator first, iterator last) {
 		std::rotate(first, last, inner.end());
 		inner.resize(size() - (last-first));
-		return begin();
+		return first;
 	}
 
 	/**
-- 
2.43.0


From 13e8652f6a089dd4093ac8271342a139e3dc930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 16/46] fix: tiny::map and multimap took the mapped type for
 the key type

---
 tpie/tiny.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index b084b66..936952a 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -701,7 +701,7 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> > >
-using multimap = set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
+using multimap = set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
 
 /**
  * \brief A std::map compatible map, useful when we do not have many elements (less then 512)
@@ -710,9 +710,9 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> >
-		  > class map: public set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
+		  > class map: public set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
 private:
-	typedef set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
+	typedef set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
 public:
 
 	map() {}
-- 
2.43.0


From ae757aae1e94dad5e11f53c5fa94a17f2d59617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 17/46] fix: a file whose close reported an error stayed
 counted as open

---
 tpie/file_accessor/posix.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 71003dc..61488e2 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -151,9 +151,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
+	int res = ::close(m_fd);
+	// The descriptor is released even when close reports an error.
 	get_file_manager().decrement_open_file_count();
 	m_fd = -1;
+	if (res == -1) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
-- 
2.43.0


From f0c01edb1eb9cfbed1fbf718b9ca382584275cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 18/46] fix: an error closing a file that failed to open as a
 stream terminated the program

---
 tpie/file_accessor/stream_accessor_base.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index 5afaa20..fd5e0cb 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -136,7 +136,13 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 		throw invalid_argument_exception("Either read or write must be specified");
 	struct close_on_failure {
 		file_accessor_t * f;
-		~close_on_failure() {if (f) f->close_i();}
+		~close_on_failure() {
+			try {
+				if (f) f->close_i();
+			} catch (const exception &) {
+				// The exception that made open fail is the one to report
+			}
+		}
 	} guard = {&m_fileAccessor};
 	if (write && !read) {
 		m_fileAccessor.open_wo(path);
-- 
2.43.0


From 7c7b49fcfbca2d8e15fcd9c1e9c5d957b359c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 19/46] fix: user data of a compressed stream was read and
 written while the compressor thread used the same file position

---
 tpie/compressed/buffer.h        | 12 ++++++++++++
 tpie/compressed/stream_base.cpp | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..4736ed1 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -342,6 +342,18 @@ public:
 		return m_buffers.empty();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Whether requests to the compressor thread are still outstanding.
+	///
+	/// \param  current  The buffer the stream itself refers to, or null.
+	///////////////////////////////////////////////////////////////////////////
+	bool requests_pending(const buffer_t & current) const {
+		for (buffermap_t::const_iterator i = m_buffers.begin(); i != m_buffers.end(); ++i) {
+			if (i->second.use_count() > (i->second == current ? 2 : 1)) return true;
+		}
+		return false;
+	}
+
 	void clean() {
 		buffermapit i = m_buffers.begin();
 		while (i != m_buffers.end()) {
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..45d83e9 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -370,6 +370,15 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// The file accessor has a single position, so it must not be used while
+	/// the compressor thread may still be working on requests for this stream.
+	///////////////////////////////////////////////////////////////////////////
+	void wait_for_requests(compressor_thread_lock & l) {
+		while (m_buffers.requests_pending(m_buffer))
+			compressor().wait_for_request_done(l);
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -804,11 +813,15 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_requests(l);
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_requests(l);
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From 5df8ed20196c18cd69316edcd154f08372e19d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 20/46] fix: a stream whose close reported an error could
 neither be closed nor destroyed

---
 tpie/file_accessor/stream_accessor_base.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index fd5e0cb..515f525 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -175,8 +175,9 @@ void stream_accessor_base<file_accessor_t>::close() {
 		return;
 	if (m_write)
 		write_header(true);
-	m_fileAccessor.close_i();
+	// The file is released also when close_i reports an error.
 	m_open = false;
+	m_fileAccessor.close_i();
 }
 
 template <typename file_accessor_t>
-- 
2.43.0


From a75ff91ca7d0ea0a19ebf70494aac7857da8af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 21/46] fix: a relative seek ignored a pending seek to another
 block and could leave the file

---
 tpie/stream_crtp.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..100bacc 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,10 +54,13 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			// (not while another block is pending, and not beyond the end of the file)
+			if (m_nextBlock == std::numeric_limits<stream_size_type>::max()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-				if (new_index < self().get_file().block_items()) {
+				if (new_index < self().get_file().block_items()
+					&& (offset <= 0 || new_index + m_blockStartIndex <= self().size())) {
 					self().update_vars();
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
-- 
2.43.0


From 8d89d95cfd210128a9c9ff6730b52cf701896224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 22/46] fix: reading past the end of a stream changed its
 offset, and writing afterwards wrote outside the block

---
 tpie/stream_crtp.inl | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tpie/stream_crtp.inl b/tpie/stream_crtp.inl
index a69c2b8..6d8e08e 100644
--- a/tpie/stream_crtp.inl
+++ b/tpie/stream_crtp.inl
@@ -24,10 +24,25 @@ namespace tpie {
 template <typename child_t>
 void stream_crtp<child_t>::update_block() {
 	if (m_nextBlock == std::numeric_limits<stream_size_type>::max()) {
-		m_nextBlock = self().get_block().number+1;
+		const stream_size_type block = self().get_block().number;
+		const memory_size_type index = m_index;
+		m_nextBlock = block+1;
 		m_nextIndex = 0;
+		try {
+			self().update_block_core();
+		} catch (...) {
+			// Stay at the current offset. The current block may be gone,
+			// so it has to be fetched again by the next operation.
+			if (index < self().get_file().block_items()) {
+				m_nextBlock = block;
+				m_nextIndex = index;
+			}
+			m_index = std::numeric_limits<memory_size_type>::max();
+			throw;
+		}
+	} else {
+		self().update_block_core();
 	}
-	self().update_block_core();
 	m_blockStartIndex = m_nextBlock*static_cast<stream_size_type>(self().get_file().block_items());
 	m_index = m_nextIndex;
 	m_nextBlock = std::numeric_limits<stream_size_type>::max();
-- 
2.43.0


From 78c1780de60943362218415aedb5bcee7a86a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 23/46] fix: reading an array past the end of a stream within
 the last block returned garbage

---
 tpie/stream_crtp.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 100bacc..63ee6fc 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -169,16 +169,11 @@ protected:
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
 		IT i = start;
+		// check to make sure we have enough items in the stream
+		if (i != end && stream.offset() + (end-i) > stream.size())
+			throw end_of_stream_exception();
 		while (i != end) {
 			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
-
-					throw end_of_stream_exception();
-				}
-
 				// fetch next block from disk
 				stream.update_block();
 			}
-- 
2.43.0


From 360b89d00ed8f06844de16dda13432eee170644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 24/46] fix: read_back at the beginning of a stream did not
 report end of stream as documented

---
 tpie/file.h                | 1 +
 tpie/uncompressed_stream.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..78be784 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -142,6 +142,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		inline const item_type & read_back() {
 			assert(get_file().is_open());
+			if (!can_read_back()) throw end_of_stream_exception();
 			seek(-1, current);
 			const item_type & i = read();
 			seek(-1, current);
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..b910e2f 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -113,6 +113,7 @@ public:
 	/////////////////////////////////////////////////////////////////////////
 	inline const item_type & read_back() {
 		assert(m_open);
+		if (!can_read_back()) throw end_of_stream_exception();
 		skip_back();
 		return peek();
 	}
-- 
2.43.0


From 1300abd96b6c00dbe60485e56496a06f764fb9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 25/46] fix: destroying a file stream that was never attached
 freed an uninitialised block pointer

---
 tpie/file_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/file_base.h b/tpie/file_base.h
index 59c0966..56d6c8d 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -151,7 +151,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		stream(file_base & file, stream_size_type offset=0);
 
-		stream() : m_file(0) {}
+		stream() : m_file(0), m_block(0) {}
 
 	private:
 		///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a160db8972cee4c789c591bbb7e2e323bda599fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 26/46] fix: a write after read_back increased the size of the
 stream instead of overwriting (or being refused)

---
 tpie/compressed/stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..8180e6b 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -475,6 +475,7 @@ public:
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
 		++m_cachedReads;
+		m_cachedWrites = 0;
 		--m_offset;
 		m_nextItem -= sizeof(T);
 		return *reinterpret_cast<const T *>(m_nextItem);
-- 
2.43.0


From c1bfadca51bd8227669d45b476409d06151de65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 27/46] fix: set_position within the current block kept the
 number of unchecked reads and writes of the old position

---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 45d83e9..6325f0a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1195,6 +1195,7 @@ stream_position compressed_stream_base::get_position() {
 
 void compressed_stream_base::set_position(const stream_position & pos) {
 	m_p->m_updateReadOffsetFromWrite = false;
+	m_p->uncache_read_writes();
 	
 	// If the code is correct, short circuiting is not necessary;
 	// if the code is not correct, short circuiting might mask faults.
-- 
2.43.0


From 446b8740f6aee1988aa42677e9989de66d2d178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 28/46] fix: get_position at the end of a rewritten last block
 returned the end of the old block

---
 tpie/compressed/stream_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 6325f0a..9956aa4 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1155,13 +1155,15 @@ stream_position compressed_stream_base::get_position() {
 	case seek_state::beginning:
 		return stream_position(0, 0);
 	case seek_state::none:
-		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
+		if (m_p->buffer_block_number() != m_p->m_streamBlocks
+			&& !(m_nextItem == m_bufferEnd && m_p->m_bufferDirty)) {
 			if (m_nextItem == m_bufferEnd)
 				return stream_position(m_p->m_nextReadOffset, m_offset);
 			else
 				return stream_position(m_p->m_readOffset, m_offset);
 		}
-		// We are in a new block at the end of the stream.
+		// We are in a new block at the end of the stream,
+		// or at the end of a rewritten block whose size on disk is not known yet.
 		if (m_nextItem == m_bufferEnd) {
 			tp_assert(m_p->m_bufferDirty, "At end of buffer, but bufferDirty is false?");
 			// Make sure the position we get is not at the end of a block
-- 
2.43.0


From 9c60650a683c7eab87555241649eda1a840280ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 29/46] fix: read_back after get_position at the end of a block
 read the wrong block

---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 9956aa4..4f57c65 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1172,6 +1172,7 @@ stream_position compressed_stream_base::get_position() {
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			m_p->m_readOffset = m_p->current_file_size(lock);
 		}
 		break;
 	case seek_state::end:
-- 
2.43.0


From 662d8b72ef175a826a2e9d5a977bfc9d79ea523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 30/46] fix: truncate(0) could remember the number of a
 truncated block whose write was still pending

---
 tpie/compressed/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 4f57c65..847dd5c 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -409,10 +409,10 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From 62407d3e21e046d63b675ef49bc2b6fe151065e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 31/46] fix: truncating a compressed stream at a block boundary
 left an empty block at the end of the file (stream unreadable when reopened)

---
 tpie/compressed/stream_base.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 847dd5c..2907c84 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -472,7 +472,24 @@ public:
 	
 		stream_size_type offset = pos.offset();
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
-	
+
+		if (block_item_index(offset) == 0) {
+			// The stream is going to end with the full block before pos.
+			// Load that block, and remove the blocks from pos on.
+			m_nextPosition = pos;
+			m_o->m_seekState = compressed_stream_base::seek_state::position;
+			perform_seek(read_direction::backward);
+			compressor_thread_lock l(compressor());
+			m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+			m_response.clear_block_info();
+			m_streamBlocks = block_number(offset);
+			m_lastBlockReadOffset = m_readOffset;
+			m_currentFileSize = pos.read_offset();
+			m_o->m_size = offset;
+			m_o->set_position(finalDestination);
+			return;
+		}
+
 		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
 			m_o->set_position(pos);
 			perform_seek();
-- 
2.43.0


From f35032a718deb3b406bae18423d5a3a3c8333da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 32/46] fix: reading back from a block being written used a
 wrong read offset if an earlier write was finished first

---
 tpie/compressed/stream_base.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 2907c84..99a997a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -533,13 +533,12 @@ public:
 
 	void maybe_update_read_offset(compressor_thread_lock & lock) {
 		if (m_updateReadOffsetFromWrite && use_compression()) {
-			while (!m_response.done()) {
+			// An earlier write may be done before this one.
+			while (!m_response.has_block_info(m_lastWriteBlockNumber)) {
 				m_response.wait(lock);
 			}
-			if (m_response.has_block_info(m_lastWriteBlockNumber)) {
-				m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
-				m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
-			}
+			m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
+			m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
 			m_updateReadOffsetFromWrite = false;
 		}
 	}
-- 
2.43.0


From 496f995f57d8e9f82b017b75dd9380e85d7cca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 33/46] fix: reading a block could return before the block was
 read if an earlier write was finished first

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 99a997a..c9535d8 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -645,7 +645,8 @@ public:
 		m_buffer->transition_state(compressor_buffer_state::dirty,
 								   compressor_buffer_state::reading);
 		compressor().request(r);
-		while (!m_response.done()) {
+		// An earlier write may be done before this read.
+		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
 	}
-- 
2.43.0


From 8f5ec6ee27cc9ed5a292dd55a7d9351df21b286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 34/46] fix: truncating a compressed stream into the current
 block left the item pointer outside the block

---
 tpie/compressed/stream_base.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index c9535d8..6d57f2e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -507,9 +507,7 @@ public:
 		m_o->m_size = offset;
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
-			memory_size_type blockItemIndex =
-				static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
-			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
+			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * block_item_index();
 		}
 		m_bufferDirty = true;
 	
-- 
2.43.0


From 85f6d384101339c8c29acfc135150839445bc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 35/46] fix: truncating an uncompressed stream at the beginning
 of a block not yet written left an empty block behind (reading at the end
 failed)

---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 6d57f2e..4d3b863 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -431,6 +431,7 @@ public:
 		stream_size_type currentOffset = m_o->offset();
 		if (m_buffer.get() != 0
 			&& block_number(offset) == buffer_block_number()
+			&& block_item_index(offset) != 0
 			&& buffer_block_number() == m_streamBlocks)
 		{
 			// We are truncating a final block that has not been written yet.
-- 
2.43.0


From c754b13670da246bcf8e8e80f997f373ffb74983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 36/46] fix: a stream with a block factor greater than 1 wrote
 outside its block buffer

---
 tpie/compressed/buffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 4736ed1..fc04452 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -289,6 +289,7 @@ public:
 
 			b->reset();
 			m_buffers.insert(std::make_pair(blockNumber, b));
+			ensure_capacity(b);
 			clean();
 			return b;
 		} else {
@@ -333,6 +334,7 @@ public:
 			// Bump use count before cleaning.
 			buffer_t result = target->second;
 			clean();
+			ensure_capacity(result);
 			result->reset();
 			return result;
 		}
@@ -375,6 +377,11 @@ public:
 	}
 
 private:
+	// Buffers in the pool are made for streams with block factor 1.
+	void ensure_capacity(const buffer_t & b) {
+		if (b->capacity() < m_blockSize) b->set_capacity(m_blockSize);
+	}
+
 	memory_size_type own_buffers() {
 		return m_ownBuffers;
 	}
-- 
2.43.0


From 7db28ddffd0be87b59da7ed3beaf1639b20f57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 37/46] fix: popping an empty queue leaves its size at zero

---
 tpie/queue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpie/queue.h b/tpie/queue.h
index 3af8aee..44a26de 100644
--- a/tpie/queue.h
+++ b/tpie/queue.h
@@ -99,20 +99,24 @@ public:
 	/// \return The dequeued item
 	////////////////////////////////////////////////////////////////////
 	const T & pop() {
-		--m_size;
 		if(pop_queue().can_read()) {
 			// The front of the queue is the pop stream
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		} else if (!m_centerQueue.empty()) {
 			// The front of the queue is the center queue
 			const T & i = m_centerQueue.front();
 			m_centerQueue.pop();
+			--m_size;
 			return i;
 		} else {
 			// The front of the queue is the push stream,
 			// so we swap the push stream and the pop stream.
 			swap_file_streams();
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		}
 	}
 
-- 
2.43.0


From 62fc6bd509e30ddd4083e2fa897b19ad3303056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 38/46] fix: set_default_path falls back to path when
 path/subdir is not a directory

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..707a769 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -265,6 +265,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 			default_path = path;
 			subdirs.push(""); // signals that the current global subdirectory has not been created yet
 			TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
+			return;
 		}
 
 		default_path = p.string();
-- 
2.43.0


From a10415ec4950765f878a94f2722f3123f44505a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 39/46] fix: names go to the fallback directory after
 set_default_path could not create the subdirectory

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 707a769..5e57bb3 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -273,6 +273,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 	} catch (std::filesystem::filesystem_error &) {
 		TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
 		default_path = path; 
+		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	}	
 }
 
-- 
2.43.0


From 1a44d2ef61746857ce355de3469eefc884bab3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 40/46] fix: opening a serialization writer that is already
 open first flushes and closes the old stream

---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..3fc56f4 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From e16900b3334613c24b49564ed63068c30060a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 41/46] fix: btree find returns the first item with the key
 when equal keys span leaves

---
 tpie/btree/btree.h | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 293fe29..904b5ab 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -377,28 +377,9 @@ public:
 	 */
 	template <typename K, typename X=enab>
 	iterator find(K v, enable<X, is_ordered> =enab()) const {
-		iterator itr(&m_state);
-
-		if(m_state.store().height() == 0) {
+		iterator itr = lower_bound(v);
+		if (itr != end() && m_comp(v, m_state.min_key(*itr)))
 			itr.goto_end();
-			return itr;
-		}
-
-		std::vector<internal_type> path;
-		leaf_type l = find_leaf<true>(path, v);
-	
-		size_t i=0;
-		size_t z = m_state.store().count(l);
-		while (true) {
-			if (i == z) {
-				itr.goto_end();
-				return itr;
-			}
-			if (!m_comp(m_state.min_key(l, i), v) &&
-				!m_comp(v, m_state.min_key(l, i))) break;
-			++i;
-		}
-		itr.goto_item(path, l, i);
 		return itr;
 	}
 
-- 
2.43.0


From 029a147308155f1ac9dd436e887f8a406e0d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 42/46] fix: serialized btree get_metadata reads at the offset
 of the metadata

---
 tpie/btree/serialized_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..1bc186a 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -602,6 +602,7 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
 		return data;
 	}
-- 
2.43.0


From 73f1e78bc557f1560169aa268e3ee342c8099d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 43/46] fix: comparing iterators of an empty serialized btree
 dereferences null

---
 tpie/btree/serialized_store.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 1bc186a..4f45430 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -299,11 +299,12 @@ private:
 		}
 
 		bool operator==(const leaf_type & o) const noexcept {
-			return ptr->my_offset == o->my_offset;
+			if (!ptr || !o.ptr) return !ptr && !o.ptr;
+			return ptr->my_offset == o.ptr->my_offset;
 		}
 
 		bool operator!=(const leaf_type & o) const noexcept {
-			return !(this == o);
+			return !(*this == o);
 		}
 	};
 
-- 
2.43.0


From eaaf964d29295093a30e3fd8e21cb6474aeef7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:06 +0000
Subject: [PATCH 44/46] fix: the internal reverser pushes items from std::stack

---
 tpie/pipelining/reverse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index bfc0023..89118a3 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -166,7 +166,8 @@ public:
 
 	void go() override {
 		while (!m_stack->empty()) {
-			dest.push(m_stack->pop());
+			dest.push(m_stack->top());
+			m_stack->pop();
 			step();
 		}
 	}
-- 
2.43.0


From cc26d437d1b73e949ec7d1804db7c5575f9a94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:06 +0000
Subject: [PATCH 45/46] fix: pull_output leaves begin and end of its source to
 the runtime

---
 tpie/pipelining/file_stream.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index aaaf028..b5453ff 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -315,11 +315,9 @@ public:
 	}
 
 	void go() override {
-		source.begin();
 		while (source.can_pull()) {
 			fs.write(source.pull());
 		}
-		source.end();
 	}
 	
 private:
-- 
2.43.0


From c6a33d9dc54950e42e9012a429714d5caba65b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:50 +0000
Subject: [PATCH 46/46] fix: btree split leaves enough entries in the left node
 when the maximum size is odd

---
 tpie/btree/btree.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 904b5ab..f804301 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -164,7 +164,10 @@ private:
 	NT split_and_insert(CT c, NT left, size_t index) {
 		tp_assert(m_state.store().count(left) == max_size(left), "Node not full");
 		
-		size_t left_size = max_size(left)/2;
+		// The node that does not receive the new entry must have enough entries
+		// on its own, also when the maximum size is odd.
+		const bool insert_left = index <= max_size(left)/2;
+		size_t left_size = insert_left ? max_size(left)/2 : max_size(left) - max_size(left)/2;
 		size_t right_size = max_size(left)-left_size;
 		NT right = m_state.store().create(left);
 		for (size_t i=0; i < right_size; ++i)
@@ -172,7 +175,7 @@ private:
 		m_state.store().set_count(left, left_size);
 		m_state.store().set_count(right, right_size);
 
-		if (index <= left_size)
+		if (insert_left)
 			insert_part(left, c, index);
 		else
 			insert_part(right, c, index - left_size);
-- 
2.43.0

