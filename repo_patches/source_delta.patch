From 4dd5eaa506c1d83879a585dec040bc312aaa9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:49 +0000
Subject: [PATCH 01/63] fix: make every header self-sufficient (pair.hpp
 includes <utility>, missing includes added)

---
 include/cest/cmath.hpp     | 1 +
 include/cest/complex.hpp   | 2 ++
 include/cest/ios_base.hpp  | 2 ++
 include/cest/pair.hpp      | 2 +-
 include/cest/streambuf.hpp | 3 +++
 5 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..a8ac844 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -2,6 +2,7 @@
 #define _CEST_CMATH_HPP_
 
 #include "cest/bits/abs.hpp"
+#include <limits> // std::numeric_limits
 
 namespace cest {
 
diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a87dc0a..9671b5a 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -9,6 +9,8 @@
 
 #include <type_traits>
 #include "cest/algorithm.hpp"
+#include "cest/cmath.hpp"
+#include "cest/istream.hpp"
 
 // Get rid of a macro possibly defined in <complex.h>
 #undef complex
diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index c51d052..e36f348 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -1,6 +1,8 @@
 #ifndef _CEST_IOS_BASE_HPP_
 #define _CEST_IOS_BASE_HPP_
 
+#include <ios> // std::streamsize
+
 namespace cest {
 
   enum _Ios_Fmtflags
diff --git a/include/cest/pair.hpp b/include/cest/pair.hpp
index 15ec31f..e9dd425 100644
--- a/include/cest/pair.hpp
+++ b/include/cest/pair.hpp
@@ -1,7 +1,7 @@
 #ifndef _CEST_PAIR_HPP_
 #define _CEST_PAIR_HPP_
 
-#include <pair>
+#include <utility>
 
 namespace cest {
 
diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index a2ff25a..470b250 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -1,6 +1,9 @@
 #ifndef _CEST_STREAMBUF_HPP_
 #define _CEST_STREAMBUF_HPP_
 
+#include "ios_base.hpp" // cest::streamsize
+#include <string>       // std::char_traits
+
 namespace cest {
 
 #define _IsUnused __attribute__ ((__unused__))
-- 
2.43.0


From 181f45c297faca047cf0e6819fa52af3ca6fefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 02/63] fix: complex transcendental functions and powers use
 cest's own functions

sqrt, tan, tanh, log10 and pow called std:: overloads that do not exist for
cest::complex, and the mixed pow overloads truncated real exponents to int.
---
 include/cest/complex.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 9671b5a..c69a50c 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -793,7 +793,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return std::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / log(_Tp(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
@@ -871,7 +871,7 @@ namespace cest
         }
       else
         {
-          _Tp __t = sqrt(2 * (std::abs(__z) + abs(__x)));
+          _Tp __t = sqrt(2 * (cest::abs(__z) + abs(__x)));
           _Tp __u = __t / 2;
           return __x > _Tp()
             ? complex<_Tp>(__u, __y / __t)
@@ -904,7 +904,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
-    { return std::sin(__z) / std::cos(__z); }
+    { return cest::sin(__z) / cest::cos(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -932,7 +932,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
-    { return std::sinh(__z) / std::cosh(__z); }
+    { return cest::sinh(__z) / cest::cosh(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -998,16 +998,16 @@ namespace cest
 	return _Tp();
 #endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
-        return pow(__x.real(), __y);
+        return exp(__y * log(__x.real()));
 
-      complex<_Tp> __t = std::log(__x);
+      complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
     }
 
   template<typename _Tp>
     inline complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
-    { return __x == _Tp() ? _Tp() : std::exp(__y * std::log(__x)); }
+    { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1038,9 +1038,9 @@ namespace cest
     inline complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
-      return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
+      return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
 					   __y.imag() * log(__x))
-	                 : std::pow(complex<_Tp>(__x), __y);
+	                 : cest::pow(complex<_Tp>(__x), __y);
     }
 
 } // namespace cest
-- 
2.43.0


From a41789c57d8b51620da1d2d1297d101f7fb9fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 03/63] fix: define the global streams inline so several
 translation units can link

---
 include/cest/iostream.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index c7ffc4f..acd24b3 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -8,16 +8,16 @@
 namespace cest {
 
 namespace impl {
-  basic_stringbuf cout(string("cout"));
-  basic_stringbuf cerr(string("cerr"));
-  basic_stringbuf clog(string("clog"));
-  basic_stringbuf cin(string("cin"));
+  inline basic_stringbuf cout(string("cout"));
+  inline basic_stringbuf cerr(string("cerr"));
+  inline basic_stringbuf clog(string("clog"));
+  inline basic_stringbuf cin(string("cin"));
 }
 
-ostream cout(&impl::cout);
-ostream cerr(&impl::cerr);
-ostream clog(&impl::clog);
-istream cin(&impl::cin);
+inline ostream cout(&impl::cout);
+inline ostream cerr(&impl::cerr);
+inline ostream clog(&impl::clog);
+inline istream cin(&impl::cin);
 
 using iostream  = basic_iostream<char>;
 using wiostream = basic_iostream<wchar_t>;
-- 
2.43.0


From 9d9880a3b3bc0d0aed16e346f4875afc7d076e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:15 +0000
Subject: [PATCH 04/63] fix: hex, dec and oct take effect on the run-time
 output streams

---
 include/cest/ostream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..5450295 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -55,6 +55,9 @@ public:
   constexpr __ostream_type&
   operator<<(ios_base&       (*__pf)(ios_base&))       {
     __pf(*this);
+    if      (__pf == cest::hex) impl::runtime_ostream(*this, std::hex);
+    else if (__pf == cest::dec) impl::runtime_ostream(*this, std::dec);
+    else if (__pf == cest::oct) impl::runtime_ostream(*this, std::oct);
     return *this;
   }
 
-- 
2.43.0


From 8071f7d2e1a109b129191e783904de0e6af69bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:22 +0000
Subject: [PATCH 05/63] fix: printf and fprintf without arguments interpret the
 format, and fprintf keeps null characters

---
 include/cest/cstdio.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..c3ea509 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -18,15 +18,18 @@ constexpr ostream* stdout = &cest::cout;
 constexpr ostream* stderr = &cest::cerr;
 
 // avoid warning: format string is not a string literal (-Wformat-security)
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wformat-security"
 constexpr int printf(const char* format)
 {
   if (!std::is_constant_evaluated())
   {
-    return std::printf("%s", format);
+    return std::printf(format);
   }
 
   return 0;
 }
+#pragma GCC diagnostic pop
 
 template <typename... Ts>
 constexpr int printf(const char* format, Ts&&... xs)
@@ -39,15 +42,25 @@ constexpr int printf(const char* format, Ts&&... xs)
   return 0; // positive; not an error; 0 characters output (constexpr)
 }
 
+// avoid warning: format string is not a string literal (-Wformat-security)
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wformat-security"
 constexpr int fprintf(ostream* stream, const char* format)
 {
   if (!std::is_constant_evaluated())
   {
-    (*stream) << format;
+    int nbytes = std::snprintf(nullptr, 0, format);
+    char *psz = new char[nbytes+1];
+    std::snprintf(psz, nbytes+1, format);
+    for (int i = 0; i < nbytes; ++i)
+      (*stream) << psz[i]; // not as a C string; it may contain null characters
+    delete [] psz;
+    return nbytes;
   }
 
   return 0;
 }
+#pragma GCC diagnostic pop
 
 // FILE* for param 1 would itroduce the issues described above. 
 template <typename... Ts>
@@ -58,7 +71,8 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    for (int i = 0; i < nbytes; ++i)
+      (*stream) << psz[i]; // not as a C string; it may contain null characters
     delete [] psz;
     return nbytes;
   }
-- 
2.43.0


From 41452eb75b474ca03c0fd34caccf328da19f06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 06/63] fix: string copies, assignments, searches and output
 keep embedded nulls, and assignment may alias

The copy constructor, assignment, find(string) and operator<< went through
c_str() and so stopped at the first null; assignment from the string itself or
from a pointer into it read freed memory when it had to reallocate.
---
 include/cest/string.hpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..43cc164 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -4,6 +4,7 @@
 #include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
+#include <string_view> // std::basic_string_view
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
@@ -62,7 +63,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size(), str.get_allocator()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -136,7 +138,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
@@ -218,24 +220,30 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
+    return this->assign(s, traits_type::length(s));
+  }
 
+  constexpr basic_string& assign(const CharT* s, size_type count)
+  {
     if (m_capacity < count+1) {
+      const size_type cap = count+1;           // ensure m_capacity is not 0
+      value_type *p = m_alloc.allocate(cap+1); // +1 for the null terminator
+      for (size_type i = 0; i < cap+1; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count);          // s may point into this string
       m_alloc.deallocate(m_p, m_capacity+1);
-      m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
+      m_p = p;
+      m_capacity = cap;
+    } else {
+      traits_type::move(m_p, s, count);        // s may point into this string
     }
-    
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
+
+    traits_type::assign(this->data()[m_size = count], CharT());
     return *this;
   }
 
   constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
+    return this->assign(str.data(), str.size());
   }
 
   constexpr void reserve(size_type new_cap)
@@ -367,7 +375,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(
+    os, std::basic_string_view<CharT, Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From 79357eb3d7b87c6985c5b5ce064ae59df507169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 07/63] fix: string::find of a character starts at the given
 position

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 43cc164..149190e 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -141,8 +141,10 @@ public:
     return this->find(str.data(), pos, str.size());
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size())
+      return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From 72c244d04196a7fc6e802e42b022d548b703908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 08/63] fix: string::push_back of an own character survives
 reallocation

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 149190e..d4a27b7 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -181,7 +181,7 @@ public:
      return this->find(s, pos, traits_type::length(s));
   }
 
-  constexpr void push_back(const value_type &value) {
+  constexpr void push_back(value_type value) { // by value; it may be in *this
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
     traits_type::assign(this->data()[  m_size], value);
-- 
2.43.0


From c73ee7a1e7bd4b7008e885ba7891802a7c93861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 09/63] fix: string construction from iterators starts from
 valid storage; failing default construction throws

---
 include/cest/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index d4a27b7..e74f1ba 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -35,11 +35,10 @@ public:
 
   static const size_type npos = static_cast<size_type>(-1);
 
-  constexpr basic_string() noexcept(noexcept( Allocator() )) :
-    basic_string( Allocator() ) {}
+  constexpr basic_string() : basic_string( Allocator() ) {}
 
   explicit constexpr
-  basic_string(const Allocator& alloc) noexcept : m_alloc(alloc)
+  basic_string(const Allocator& alloc) : m_alloc(alloc)
   {
     m_capacity = 1;                                // Unlike 0, a scalable value
     m_p = m_alloc.allocate(m_capacity+1);          // +1 for the null terminator
@@ -68,7 +67,8 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator())
+  : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From 713cb52fb6ec7efd87ada5613762d23de9038241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 10/63] fix: comparing strings of every character type for
 equality is constexpr

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index e74f1ba..a65a503 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -307,7 +307,7 @@ private:
 };
 
 template<typename _CharT, typename _Traits, typename _Alloc>
-  inline bool
+  inline constexpr bool
   operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
              const basic_string<_CharT, _Traits, _Alloc>& __rhs)
   noexcept
-- 
2.43.0


From 3891c1ae7282d9b097fe2209e51e78fd2353a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 11/63] fix: string streams return their contents from str()

---
 include/cest/sstream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 4809b3e..8dd0f85 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -51,6 +51,8 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr __string_type str() const { return _M_string; }
+
   constexpr void str(const __string_type& __s)
   {
     _M_string = __s;
-- 
2.43.0


From e28ce55e45c6fb8d14b33c196d08071c4544d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:59 +0000
Subject: [PATCH 12/63] fix: string self-assignment works in constant
 expressions

---
 include/cest/string.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index a65a503..3558e45 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -237,7 +237,10 @@ public:
       m_p = p;
       m_capacity = cap;
     } else {
-      traits_type::move(m_p, s, count);        // s may point into this string
+      for (size_type i = 0; i < count; i++) {
+        const value_type c = s[i];             // s may point into this string
+        traits_type::assign(m_p[i], c);
+      }
     }
 
     traits_type::assign(this->data()[m_size = count], CharT());
-- 
2.43.0


From 57d8bf3f8fd3b294c562119d1faaec0026833f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:00 +0000
Subject: [PATCH 13/63] fix: vector stays valid and leaks nothing when an
 element constructor throws

The size was updated before the elements existed, so unwinding destroyed
elements that were never constructed, and storage obtained by constructors or
by reserve was leaked.
---
 include/cest/vector.hpp | 42 ++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..3eaf2cd 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -39,12 +39,14 @@ public:
     swap(m_alloc, other.m_alloc);
   }
 
+  explicit constexpr vector(const Allocator& alloc)
+    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc) {}
+
   constexpr vector(const vector& other) : vector()
   {
     reserve(other.capacity());
-    m_size = other.size();
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i], other.m_p[i]);
+    for (; m_size < other.size(); m_size++)
+      std::construct_at(&m_p[m_size], other.m_p[m_size]);
   }
 
   constexpr vector(vector&& other) : vector()
@@ -53,18 +55,15 @@ public:
   }
 
   constexpr vector(size_type count,
-                   const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+                   const Allocator& alloc = Allocator()) : vector(alloc)
   {
     reserve(count);
-    m_size = count;
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i]);
+    for (; m_size < count; m_size++)
+      std::construct_at(&m_p[m_size]);
   }
 
   constexpr vector(std::initializer_list<T> init,
-                   const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+                   const Allocator& alloc = Allocator()) : vector(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
@@ -89,7 +88,7 @@ public:
     if (other.size() >= m_size) {
       for (; i < m_size; i++)
         m_p[i] = other.m_p[i];
-      for (; i < other.size(); i++)
+      for (; i < other.size(); i++, m_size++)
         std::construct_at(&m_p[i], other.m_p[i]);
     } else {
       for (; i < other.size(); i++)
@@ -110,8 +109,15 @@ public:
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      for (size_type i = 0; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      size_type   i = 0;
+      try {
+        for (; i < m_size; i++)
+          std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      } catch (...) {
+        std::destroy_n(p, i);
+        m_alloc.deallocate(p, new_cap);
+        throw;
+      }
       if (0 != m_capacity) {
         std::destroy_n(m_p,m_size);
         m_alloc.deallocate(m_p,m_capacity);
@@ -126,8 +132,8 @@ public:
     if (count > m_size)
     {
       reserve(count);
-      for (size_type i = m_size; i < count; i++)
-        std::construct_at(&m_p[i]);
+      for (; m_size < count; m_size++)
+        std::construct_at(&m_p[m_size]);
     } else if (count < m_size) {
       std::destroy_n(&m_p[count], m_size-count);
     }
@@ -191,7 +197,8 @@ public:
     } else if (m_capacity == m_size) {
       reserve(m_capacity * 2);
     }
-    std::construct_at(&m_p[m_size++],value);
+    std::construct_at(&m_p[m_size],value);
+    m_size++;
   }
 
   constexpr void push_back(value_type &&value)
@@ -201,7 +208,8 @@ public:
     } else if (m_capacity == m_size) {
       reserve(m_capacity * 2);
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
+    std::construct_at(&m_p[m_size],std::forward<T>(value));
+    m_size++;
   }
 
   constexpr iterator erase(iterator first, iterator last)
-- 
2.43.0


From 3ee74d538cc67df21cd00acf3125985c3c7a7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 14/63] fix: vector::push_back of an own element survives
 reallocation

---
 include/cest/vector.hpp | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 3eaf2cd..f270fc5 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -192,23 +192,21 @@ public:
 
   constexpr void push_back(const value_type &value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      grow_with(value);
+    } else {
+      std::construct_at(&m_p[m_size],value);
     }
-    std::construct_at(&m_p[m_size],value);
     m_size++;
   }
 
   constexpr void push_back(value_type &&value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      grow_with(std::forward<T>(value));
+    } else {
+      std::construct_at(&m_p[m_size],std::forward<T>(value));
     }
-    std::construct_at(&m_p[m_size],std::forward<T>(value));
     m_size++;
   }
 
@@ -224,6 +222,29 @@ public:
     return first;
   }
 
+private:
+
+  // Doubles the capacity and constructs value after the existing elements. As
+  // value may be one of those elements, it is used before they are relocated.
+  template <class U>
+  constexpr void grow_with(U &&value)
+  {
+    vector tmp(m_alloc);
+    tmp.reserve(0 == m_capacity ? 1 : m_capacity * 2);
+    std::construct_at(&tmp.m_p[m_size],std::forward<U>(value));
+    try {
+      for (; tmp.m_size < m_size; tmp.m_size++)
+        std::construct_at(&tmp.m_p[tmp.m_size],
+                          std::move_if_noexcept(m_p[tmp.m_size]));
+    } catch (...) {
+      std::destroy_at(&tmp.m_p[m_size]);
+      throw;
+    }
+    swap(tmp);
+  }
+
+public:
+
   size_type       m_size;
   size_type       m_capacity;
   value_type     *m_p;
-- 
2.43.0


From a5ee917806e895dc61e095c299e5c86728c65601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:43 +0000
Subject: [PATCH 15/63] fix: deque iterator decrement and distance work across
 chunks

---
 include/cest/deque.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..d9ec1ac 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -61,7 +61,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -81,7 +81,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -122,7 +122,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -142,7 +142,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
-- 
2.43.0


From 47e4b2933b2ac1fef2b5f2bab59e8adcd23d896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:10 +0000
Subject: [PATCH 16/63] fix: deque keeps its end position inside an allocated
 chunk

The back chunk only advanced when a new chunk was allocated, so refilling an
already allocated chunk overwrote earlier elements, and end() could be a
position that incrementing an iterator never reaches.
---
 include/cest/deque.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index d9ec1ac..f5b2159 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -154,7 +154,7 @@ public:
   {
     value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
-    m_back  = CHUNK_SIZE / 2 - 1;
+    m_back  = CHUNK_SIZE / 2;
     m_chunks.push_back(p);
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
@@ -193,7 +193,7 @@ public:
       std::destroy_n(&(*this)[i], 1);
 
     m_front = CHUNK_SIZE / 2;
-    m_back  = CHUNK_SIZE / 2 - 1;
+    m_back  = CHUNK_SIZE / 2;
     m_front_chunk = m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.
     m_size = 0;
   }
@@ -212,26 +212,26 @@ public:
 
   constexpr void push_back( const T& value )
   {
-    push_back_helper();
     std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
+    push_back_helper();
   }
 
   constexpr void push_back( T&& value )
   {
-    push_back_helper();
     std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
+    push_back_helper();
   }
 
   constexpr void pop_back()
   {
     if (!empty()) {
-      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
       if (m_back == 0) {
         m_back = CHUNK_SIZE - 1;
         --m_back_chunk;
       } else {
         --m_back;
       }
+      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
       --m_size;
     }
   }
@@ -260,13 +260,13 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[m_back_chunk][m_back], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator    end() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[m_back_chunk][m_back], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[m_back_chunk][m_back], &m_chunks[m_back_chunk]};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -275,10 +275,10 @@ public:
     return m_chunks[m_front_chunk][m_front];
   }
   constexpr reference        back()       {
-    return m_chunks[m_back_chunk][m_back];
+    return (*this)[m_size - 1];
   }
   constexpr const_reference  back() const {
-    return m_chunks[m_back_chunk][m_back];
+    return (*this)[m_size - 1];
   }
   [[nodiscard]] constexpr bool empty() const noexcept { return size()==0; }
   constexpr size_type size() const noexcept { return m_size; }
@@ -331,9 +331,9 @@ private:
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
         m_chunks.push_back(p);
-        ++m_back_chunk;
       }
-      
+
+      ++m_back_chunk;
       m_back = 0;
     }
     else
@@ -346,7 +346,7 @@ private:
 
   allocator_type      m_alloc;
   size_type           m_front;
-  size_type           m_back;
+  size_type           m_back;       // where the next push_back constructs
   size_type           m_front_chunk;
   size_type           m_back_chunk;
   size_type           m_size;
-- 
2.43.0


From 5597759487e1b8cd6b19506f0466e753b65b4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:11 +0000
Subject: [PATCH 17/63] fix: deque stays valid and leaks nothing when an
 element or chunk cannot be made

---
 include/cest/deque.hpp | 63 +++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index f5b2159..a4b3cd4 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -152,10 +152,9 @@ public:
 
   constexpr deque()
   {
-    value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2;
-    m_chunks.push_back(p);
+    add_chunk();
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
   }
@@ -200,25 +199,25 @@ public:
 
   constexpr void push_front( const T& value )
   {
+    std::construct_at(push_front_prepare(),           value);
     push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front],           value);
   }
 
   constexpr void push_front( T&& value )
   {
+    std::construct_at(push_front_prepare(), std::move(value));
     push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front], std::move(value));
   }
 
   constexpr void push_back( const T& value )
   {
-    std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
+    std::construct_at(push_back_prepare(),             value);
     push_back_helper();
   }
 
   constexpr void push_back( T&& value )
   {
-    std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
+    std::construct_at(push_back_prepare(),   std::move(value));
     push_back_helper();
   }
 
@@ -298,21 +297,45 @@ public:
 
 private:
 
+  constexpr void add_chunk()
+  {
+    // as vector::push_back would; but before there is a chunk to leak
+    if (m_chunks.size() == m_chunks.capacity())
+      m_chunks.reserve(m_chunks.empty() ? 1 : m_chunks.capacity() * 2);
+    m_chunks.push_back(m_alloc.allocate(CHUNK_SIZE));
+  }
+
+  // The prepare functions return the place for a new first or last element,
+  // after ensuring the chunks needed. The helpers then account for the element.
+  constexpr value_type* push_front_prepare()
+  {
+    if (m_front != 0)
+      return &m_chunks[m_front_chunk][m_front - 1];
+
+    if (m_front_chunk == 0)
+    {
+      add_chunk();
+      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
+      ++m_front_chunk;
+      ++m_back_chunk;
+    }
+
+    return &m_chunks[m_front_chunk - 1][CHUNK_SIZE - 1];
+  }
+
+  constexpr value_type* push_back_prepare()
+  {
+    if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)
+      add_chunk();
+
+    return &m_chunks[m_back_chunk][m_back];
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
     {
-      if (m_front_chunk == 0)
-      {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-        std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
-        ++m_back_chunk;
-      }
-      else {
-        --m_front_chunk;
-      }
-
+      --m_front_chunk;
       m_front = CHUNK_SIZE - 1;
     }
     else
@@ -327,12 +350,6 @@ private:
   {
     if (m_back == CHUNK_SIZE - 1)
     {
-      if (m_back_chunk == m_chunks.size() - 1)
-      {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-      }
-
       ++m_back_chunk;
       m_back = 0;
     }
-- 
2.43.0


From f182baea227c380eb4ee58f7fb12134e90d83872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:12 +0000
Subject: [PATCH 18/63] fix: assigning a deque, list, set or map to itself
 keeps its elements

---
 include/cest/deque.hpp | 1 +
 include/cest/list.hpp  | 1 +
 include/cest/map.hpp   | 1 +
 include/cest/set.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index a4b3cd4..9a4b90e 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -180,6 +180,7 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other) return *this;
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..5414329 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,7 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..a1f20af 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,7 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..a3c38c5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,7 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From 6cc40c405d67861930ad3bf344f4182f278099ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:44 +0000
Subject: [PATCH 19/63] fix: postfix increment and decrement of list and
 forward_list iterators return iterators

---
 include/cest/forward_list.hpp | 4 ++--
 include/cest/list.hpp         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 5414329..043c1cc 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From bdcf44429257fabbd2bea6eaa9f31c72fddf85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:56 +0000
Subject: [PATCH 20/63] fix: list, forward_list, set and map stay valid and
 leak nothing when copying an element throws

---
 include/cest/forward_list.hpp | 23 +++++++++++++++++------
 include/cest/list.hpp         | 28 +++++++++++++++++++---------
 include/cest/map.hpp          | 10 ++++++++--
 include/cest/set.hpp          | 10 ++++++++--
 4 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..86fad80 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,13 +97,13 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x)
+  constexpr forward_list(const forward_list& x) : forward_list()
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
     while (from->next) {
       const node *nextf = static_cast<node*>(from->next);
-      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);
+      to->next = make_node(nextf->value);
       from     = from->next;
         to     =   to->next;
     }
@@ -139,16 +139,16 @@ struct forward_list {
   constexpr
   iterator insert_after(const_iterator pos, const value_type& value) {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = m_node_alloc.allocate(1);
-    p->next        = std::construct_at(new_node,           value, p->next);
+    node* new_node = make_node(value, p->next);
+    p->next        = new_node;
     return {new_node};
   }
 
   constexpr
   iterator insert_after(const_iterator pos,      value_type&& value) {
     node_base*   p  = const_cast<node_base*>(pos.m_node);
-    node* new_node  = m_node_alloc.allocate(1);
-    p->next         = std::construct_at(new_node, std::move(value), p->next);
+    node* new_node  = make_node(std::move(value), p->next);
+    p->next         = new_node;
     return {new_node};
   }
 
@@ -201,6 +201,17 @@ struct forward_list {
     return static_cast<node*>(m_front.next)->value;
   }
 
+  constexpr node* make_node(const value_type& value, node_base* next = nullptr)
+  {
+    node* new_node = m_node_alloc.allocate(1);
+    try {
+      return std::construct_at(new_node, value, next);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
+  }
+
   node_base m_front;
   typename std::allocator_traits<allocator_type>::template rebind_alloc<node> m_node_alloc;
 };
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 043c1cc..bd2b123 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -213,12 +213,7 @@ struct list {
   constexpr iterator insert(const_iterator pos, const T& value)
   {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = m_node_alloc.allocate(1);
-
-    // As an implicit-lifetime type (P0593R6), node construction isn't needed
-    //std::construct_at(&new_node->value, value);
-    std::construct_at(new_node, value);
-    // ...actually...it is: that exemption doesn't apply for constexpr.
+    node* new_node = make_node(value);
 
     // List_node_base::_M_hook
     // __tmp->_M_hook(__position._M_const_cast()._M_node);
@@ -240,9 +235,7 @@ struct list {
   constexpr iterator emplace(const_iterator pos, Args&&... args)
   {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = m_node_alloc.allocate(1);
-
-    std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    node* new_node = make_node(value_type(std::forward<Args>(args)...));
 
     // List_node_base::_M_hook
     new_node->next = p;
@@ -291,6 +284,23 @@ struct list {
   constexpr void pop_back()  { erase({m_node.prev}); }
   constexpr void pop_front() { erase(begin());       }
 
+  constexpr node* make_node(const value_type &value)
+  {
+    node* new_node = m_node_alloc.allocate(1);
+
+    // As an implicit-lifetime type (P0593R6), node construction isn't needed
+    //std::construct_at(&new_node->value, value);
+    try {
+      std::construct_at(new_node, value);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
+    // ...actually...it is: that exemption doesn't apply for constexpr.
+
+    return new_node;
+  }
+
   node_base m_node;
   size_type m_size;
   typename std::allocator_traits<allocator_type>::template rebind_alloc<node> m_node_alloc;
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index a1f20af..0d2ccdb 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -281,8 +281,14 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        node *new_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(new_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(new_node,1);
+          throw;
+        }
+        n = ret_node = new_node;
         m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
         added = true;
         m_size++;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index a3c38c5..94c12a9 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -217,8 +217,14 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        node *new_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(new_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(new_node,1);
+          throw;
+        }
+        n = ret_node = new_node;
         m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
         added = true;
         m_size++;
-- 
2.43.0


From e53804f3eca3c00124a412e236fcd2d40de5325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 21/63] fix: map iteration compares nodes rather than keys

Keys need no operator==, and one that is coarser than the comparator made the
iterator skip or revisit elements.
---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 0d2ccdb..dd798a4 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From d2543d1431add97b3b393bb40812761145852209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 22/63] fix: heterogeneous map::find compiles

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index dd798a4..d6b33af 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -246,7 +246,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -260,7 +260,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From 3b74f4589732e528d8782d3e2fc67fa71d971ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 23/63] fix: unique_ptr move assignment deletes the old object
 and empties its source

---
 include/cest/memory.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 3ef2462..637fff2 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -43,8 +43,7 @@ public:
 
   constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
   {
-    using std::swap;
-    swap(other.ptr_, ptr_);
+    reset(other.release());
     return *this;
   }
 
-- 
2.43.0


From 2dcfd4e0f9ff287a7d97772794bc9fd0ecdd4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:53 +0000
Subject: [PATCH 24/63] fix: empty shared_ptrs can be copied

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From bef9c0647b51edeb7c21fc7eda8742633d1ee8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:53 +0000
Subject: [PATCH 25/63] fix: shared_ptr copy assignment maintains the reference
 counts

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..4663ec4 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp(r);
+    std::swap(ptr_, tmp.ptr_);
+    std::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From f027b577439b0c548cae93b434d564ab5a8a56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:53 +0000
Subject: [PATCH 26/63] fix: shared_ptr deletes its object as the type it was
 created with

---
 include/cest/shared_ptr.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 4663ec4..d3bd59b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -65,6 +65,11 @@ protected:
   template <typename U>
   struct def_del : default_delete<U> {};
 
+  // The object is deleted as the type it was created with
+  template <typename Y>
+  using def_del_for =
+    std::conditional_t<std::is_array_v<Td>, def_del<Td>, def_del<Y>>;
+
 public:
   using element_type = std::remove_extent_t<T>;
   using weak_type = std::weak_ptr<T>;
@@ -74,7 +79,7 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del_for<Y>>{ptr,{}}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-- 
2.43.0


From 3add4a6f4e02f0b4ba584c59f2eabe59e593257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:55 +0000
Subject: [PATCH 27/63] fix: copying a cest::function copies its target

Copying a non-const function recursed without end (the function became its own
target), and a const one or a const callable did not compile.
---
 include/cest/functional.hpp | 43 +++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..302fe54 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -15,6 +15,7 @@ class virt_impl_f
 {
 public:
   constexpr virtual R operator()(Args... args) = 0;
+  constexpr virtual virt_impl_f* clone() const = 0;
   constexpr virtual ~virt_impl_f() = default;
 };
 
@@ -22,7 +23,9 @@ template <typename F, typename R, typename... Args>
 class impl_f : public virt_impl_f<R , Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(F f) : f_(std::move(f)) {}
+
+  constexpr virtual impl_f* clone() const override { return new impl_f(f_); }
 
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
@@ -35,7 +38,9 @@ template <typename F, typename... Args>
 class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(F f) : f_(std::move(f)) {}
+
+  constexpr virtual impl_f* clone() const override { return new impl_f(f_); }
 
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
@@ -57,10 +62,23 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  constexpr function(const function& x) :
+    f_(x.f_ ? x.f_->clone() : nullptr){}
+
+  constexpr function(function&& x) = default;
+
+  constexpr function& operator=(const function& x)
+  {
+    return *this = function(x);
+  }
+
+  constexpr function& operator=(function&& x) = default;
+
+  template<typename F, typename = // a function isn't its own target; copy it
+           std::enable_if_t<!std::is_same_v<std::decay_t<F>, function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         R, Args...>>(std::move(f))){}
+                         R, Args...>>(std::forward<F>(f))){}
 };
 
 template <typename... Args>
@@ -73,10 +91,23 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  constexpr function(const function& x) :
+    f_(x.f_ ? x.f_->clone() : nullptr){}
+
+  constexpr function(function&& x) = default;
+
+  constexpr function& operator=(const function& x)
+  {
+    return *this = function(x);
+  }
+
+  constexpr function& operator=(function&& x) = default;
+
+  template<typename F, typename = // a function isn't its own target; copy it
+           std::enable_if_t<!std::is_same_v<std::decay_t<F>, function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         void, Args...>>(std::move(f))){}
+                         void, Args...>>(std::forward<F>(f))){}
 };
 
 // Deduction guide borrowed from libcxx
-- 
2.43.0


From 12227e374cc3d6aeef1062f816a3d9ec412642b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 28/63] fix: floor and ceil are exact next to integers

v + 1 and v - 1 round to the wrong integer when v is one ulp from it.
---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index a8ac844..a2705dc 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -119,7 +119,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return ((double)(int)v != v && v > 0) ? (int)v + 1 : (int)v;
   }
 
   constexpr double cos(double x) {
@@ -131,7 +131,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return ((double)(int)v != v && v < 0) ? (int)v - 1 : (int)v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From a2e5d1e40bdec2fab79bfd01580a8b3d17a5ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 29/63] fix: sqrt terminates for zero, negative and non-finite
 arguments

---
 include/cest/cmath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index a2705dc..171ba38 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -142,7 +142,9 @@ namespace cest {
   }
 
   constexpr double sqrt(double x) {
-    return sqrt_helper(x,1.0);
+    return x == 0 || x != x || x == std::numeric_limits<double>::infinity() ? x :
+           x <  0 ? std::numeric_limits<double>::quiet_NaN() :
+           sqrt_helper(x,1.0);
   }
 
   constexpr double sin(double x) { 
-- 
2.43.0


From b297b5d5782753535bd9adb202e8d778c5a671a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:26 +0000
Subject: [PATCH 30/63] fix: exp, log, sin, cos, atan, sinh and cosh terminate
 for NaN and infinities, and cosh does not overflow early

---
 include/cest/cmath.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 171ba38..65b069b 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -107,7 +107,7 @@ namespace cest {
   } // anonymous namespace
 
   constexpr double atan(double x) {
-    return (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);
+    return x != x ? x : (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);
   }
 
   constexpr double atan2(double y, double x) {
@@ -127,7 +127,8 @@ namespace cest {
   }
 
   constexpr double cosh(double x) {
-    return sqrt(1.0 + square(sinh(x)));
+    return abs(x) > 20. ? abs(sinh(x)) // equal; but the square may overflow
+                        : sqrt(1.0 + square(sinh(x)));
   }
 
   constexpr int floor(double v) {
@@ -148,22 +149,28 @@ namespace cest {
   }
 
   constexpr double sin(double x) { 
-    return sin_helper(x < 0 ? -x+CEST_M_PI : x);
+    return x - x != 0 ? std::numeric_limits<double>::quiet_NaN() // inf or NaN
+                      : sin_helper(x < 0 ? -x+CEST_M_PI : x);
   }
 
   constexpr double sinh(double x) {
-    return x < 0 ? -sinh_helper(-x) : sinh_helper(x);
+    return x - x != 0 ? x : // infinity or NaN
+           x < 0 ? -sinh_helper(-x) : sinh_helper(x);
   }
 
   // exp(x) = e^n . e^r (where n is an integer, and -0.5 > r < 0.5
   // exp(r) = e^r = 1 + r + r^2/2 + r^3/6 + r^4/24 + r^5/120
   constexpr double exp(double x) {
-    return pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));
+    return x != x      ? x :
+           x >  710.0  ? std::numeric_limits<double>::infinity() :
+           x < -746.0  ? 0. :
+           pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));
   }
 
   constexpr double log(double x) {
     return x == 0 ? -std::numeric_limits<double>::infinity() :
            x <  0 ?  std::numeric_limits<double>::quiet_NaN() :
+           x == std::numeric_limits<double>::infinity() ? x :
            2.0 * log_helper(sqrt(mantissa(x))) + 2.3025851 * exponent(x);
   }
 
-- 
2.43.0


From 14c2e162c55c6d14aa8f812e0361af2713d9635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 31/63] fix: deque uses the allocator it is constructed with

---
 include/cest/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 9a4b90e..4fb3d9c 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -150,7 +150,9 @@ public:
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
 
-  constexpr deque()
+  constexpr deque() : deque(Allocator()) {}
+
+  explicit constexpr deque(const Allocator& alloc) : m_alloc(alloc)
   {
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2;
@@ -166,7 +168,7 @@ public:
   }
 
   constexpr deque(std::initializer_list<T> init,
-                  const Allocator& alloc = Allocator()) : deque()
+                  const Allocator& alloc = Allocator()) : deque(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
-- 
2.43.0


From a23a1110d79fdfd12bbddea508397e134d21e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 32/63] fix: deque iterators provide the random access
 operations their category promises

---
 include/cest/deque.hpp | 85 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 85 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 4fb3d9c..6baf179 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -85,6 +85,48 @@ public:
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
+    constexpr iter& operator+=(difference_type n) noexcept {
+      const difference_type off   = (m_p - *m_ppchunk) + n;
+      const difference_type chunk = off >= 0 ? off / CHUNK_SIZE
+                                             : -((-off - 1) / CHUNK_SIZE) - 1;
+      m_ppchunk += chunk;
+      m_p = *m_ppchunk + (off - chunk * CHUNK_SIZE);
+
+      return *this;
+    }
+
+    constexpr iter& operator-=(difference_type n) noexcept {
+      return *this += -n;
+    }
+
+    constexpr reference operator[](difference_type n) const noexcept {
+      return *(*this + n);
+    }
+
+    friend constexpr iter operator+(iter it, difference_type n) noexcept {
+      return it += n;
+    }
+
+    friend constexpr iter operator+(difference_type n, iter it) noexcept {
+      return it += n;
+    }
+
+    friend constexpr iter operator-(iter it, difference_type n) noexcept {
+      return it -= n;
+    }
+
+    friend constexpr bool
+    operator<(const iter& x, const iter& y) noexcept { return x - y <  0; }
+
+    friend constexpr bool
+    operator>(const iter& x, const iter& y) noexcept { return x - y >  0; }
+
+    friend constexpr bool
+    operator<=(const iter& x, const iter& y) noexcept { return x - y <= 0; }
+
+    friend constexpr bool
+    operator>=(const iter& x, const iter& y) noexcept { return x - y >= 0; }
+
     value_type*  m_p       = nullptr;
     value_type** m_ppchunk = nullptr; // address of the vector element
   };
@@ -97,6 +139,7 @@ public:
     using pointer           = const value_type*;
     using iterator_category = std::random_access_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const value_type* p, value_type* const* ppchunk)
       : m_p(p),      m_ppchunk(ppchunk)      {}
     constexpr const_iter(const iter&     it)
@@ -146,6 +189,48 @@ public:
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
+    constexpr const_iter& operator+=(difference_type n) noexcept {
+      const difference_type off   = (m_p - *m_ppchunk) + n;
+      const difference_type chunk = off >= 0 ? off / CHUNK_SIZE
+                                             : -((-off - 1) / CHUNK_SIZE) - 1;
+      m_ppchunk += chunk;
+      m_p = *m_ppchunk + (off - chunk * CHUNK_SIZE);
+
+      return *this;
+    }
+
+    constexpr const_iter& operator-=(difference_type n) noexcept {
+      return *this += -n;
+    }
+
+    constexpr reference operator[](difference_type n) const noexcept {
+      return *(*this + n);
+    }
+
+    friend constexpr const_iter operator+(const_iter it, difference_type n) noexcept {
+      return it += n;
+    }
+
+    friend constexpr const_iter operator+(difference_type n, const_iter it) noexcept {
+      return it += n;
+    }
+
+    friend constexpr const_iter operator-(const_iter it, difference_type n) noexcept {
+      return it -= n;
+    }
+
+    friend constexpr bool
+    operator<(const const_iter& x, const const_iter& y) noexcept { return x - y <  0; }
+
+    friend constexpr bool
+    operator>(const const_iter& x, const const_iter& y) noexcept { return x - y >  0; }
+
+    friend constexpr bool
+    operator<=(const const_iter& x, const const_iter& y) noexcept { return x - y <= 0; }
+
+    friend constexpr bool
+    operator>=(const const_iter& x, const const_iter& y) noexcept { return x - y >= 0; }
+
     const value_type*  m_p       = nullptr;
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
-- 
2.43.0


From 01807720c6516042cc75db695c55a5820d265741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 33/63] fix: set and map iterators can be decremented, as their
 category promises

---
 include/cest/map.hpp | 112 ++++++++++++++++++++++++++++++++++++-------
 include/cest/set.hpp |  59 ++++++++++++++++++-----
 2 files changed, 142 insertions(+), 29 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index d6b33af..7dc677a 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -46,7 +46,8 @@ public:
     using difference_type   = ptrdiff_t;
 
     constexpr tree_iter()                  noexcept                 { }
-    explicit constexpr tree_iter(node *np) noexcept : curr_node(np) { }
+    constexpr tree_iter(node *np, node *const *r) noexcept
+      : curr_node(np), root(r) { }
 
     constexpr reference operator*()  const { return  curr_node->x; }
     constexpr pointer   operator->() const { return &curr_node->x; }
@@ -74,11 +75,45 @@ public:
 
     constexpr tree_iter      operator++(int) // post-increment
     {
-      tree_iter tmp(curr_node);
+      tree_iter tmp(*this);
       ++(*this);
       return tmp; 
     }
 
+    constexpr tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node) // the end; its predecessor is the rightmost node
+      {
+        curr_node = *root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node == pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr tree_iter      operator--(int) // post-decrement
+    {
+      tree_iter tmp(*this);
+      --(*this);
+      return tmp; 
+    }
+
     friend constexpr bool operator==(const tree_iter &x, const tree_iter &y) {
       return x.curr_node == y.curr_node;
     }
@@ -87,7 +122,8 @@ public:
       return x.curr_node != y.curr_node;
     }
 
-    node *curr_node = nullptr;
+    node        *curr_node = nullptr;
+    node *const *root      = nullptr; // of the container
   };
 
   struct const_tree_iter
@@ -99,9 +135,10 @@ public:
     using difference_type   = ptrdiff_t;
 
     constexpr const_tree_iter()                  noexcept                 { }
-    explicit constexpr const_tree_iter(node *np) noexcept : curr_node(np) { }
+    constexpr const_tree_iter(node *np, node *const *r) noexcept
+      : curr_node(np), root(r) { }
     constexpr const_tree_iter(const map::iterator& it)  noexcept
-      : curr_node(it.curr_node) { }
+      : curr_node(it.curr_node), root(it.root) { }
 
     constexpr reference operator*()  const { return  curr_node->x; }
     constexpr pointer   operator->() const { return &curr_node->x; }
@@ -129,11 +166,45 @@ public:
 
     constexpr const_tree_iter      operator++(int) // post-increment
     {
-      const_tree_iter tmp(curr_node);
+      const_tree_iter tmp(*this);
       ++(*this);
       return tmp; 
     }
 
+    constexpr const_tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node) // the end; its predecessor is the rightmost node
+      {
+        curr_node = *root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node == pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr const_tree_iter      operator--(int) // post-decrement
+    {
+      const_tree_iter tmp(*this);
+      --(*this);
+      return tmp; 
+    }
+
     friend constexpr bool operator==(const const_tree_iter &x,
                                      const const_tree_iter &y) {
       return x.curr_node == y.curr_node;
@@ -144,7 +215,8 @@ public:
       return x.curr_node != y.curr_node;
     }
 
-    node *curr_node = nullptr;
+    node        *curr_node = nullptr;
+    node *const *root      = nullptr; // of the container
   };
 
   enum eCol { RED, BLACK };
@@ -179,14 +251,20 @@ public:
 // and it results in the iterator's type failing std::weakly_incrementable etc.
 //  constexpr     iterator  begin()       noexcept { return iterator{m_begin}; }
   constexpr const_iterator  begin() const noexcept {
-    return const_iterator{m_begin};
+    return const_iterator{m_begin,&m_root};
   }
   constexpr const_iterator cbegin() const noexcept {
-    return const_iterator{m_begin};
+    return const_iterator{m_begin,&m_root};
+  }
+  constexpr       iterator    end()       noexcept {
+    return iterator(nullptr,&m_root);
+  }
+  constexpr const_iterator    end() const noexcept {
+    return const_iterator(nullptr,&m_root);
+  }
+  constexpr const_iterator   cend() const noexcept {
+    return const_iterator(nullptr,&m_root);
   }
-  constexpr       iterator    end()       noexcept { return iterator(); }
-  constexpr const_iterator    end() const noexcept { return const_iterator(); }
-  constexpr const_iterator   cend() const noexcept { return const_iterator(); }
   constexpr size_type        size() const noexcept { return m_size; }
   [[nodiscard]]
   constexpr bool            empty() const noexcept { return 0==m_size; }
@@ -219,7 +297,7 @@ public:
       else                             {              break; }
     }
 
-    return iterator(n);
+    return iterator(n,&m_root);
   }
 
   constexpr const_iterator find(const Key &key) const {
@@ -232,7 +310,7 @@ public:
       else                             {              break; }
     }
 
-    return const_iterator(n);
+    return const_iterator(n,&m_root);
   }
 
   template <class K>
@@ -246,7 +324,7 @@ public:
       else                             {              break; }
     }
 
-    return iterator(n);
+    return iterator(n,&m_root);
   }
 
   template <class K>
@@ -260,7 +338,7 @@ public:
       else                             {              break; }
     }
 
-    return const_iterator(n);
+    return const_iterator(n,&m_root);
   }
 
   constexpr void rotate_left(node *&n) {
@@ -327,7 +405,7 @@ public:
     ins(m_root,nullptr,ins);
     m_root->c = BLACK; // make_black
 
-    return {iterator(ret_node),added};
+    return {iterator(ret_node,&m_root),added};
   }
 
   node *m_root;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 94c12a9..d084e8c 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -69,11 +69,45 @@ public:
 
     constexpr const_tree_iter      operator++(int) // post-increment
     {
-      const_tree_iter tmp{curr_node};
+      const_tree_iter tmp(*this);
       ++(*this);
       return tmp; 
     }
 
+    constexpr const_tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node) // the end; its predecessor is the rightmost node
+      {
+        curr_node = *root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node == pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr const_tree_iter      operator--(int) // post-decrement
+    {
+      const_tree_iter tmp(*this);
+      --(*this);
+      return tmp; 
+    }
+
     friend constexpr bool operator==(const const_tree_iter &x,
                                      const const_tree_iter &y) {
       return x.curr_node == y.curr_node; // this should work constexpr. Test.
@@ -84,7 +118,8 @@ public:
       return x.curr_node != y.curr_node;
     }
 
-    node *curr_node = nullptr;
+    node        *curr_node = nullptr;
+    node *const *root      = nullptr; // of the container
   };
 
   enum eCol { RED, BLACK };
@@ -119,11 +154,11 @@ public:
 // This seems to exist in cppreference.com; but GCC doesn't have it, and
 // it results in the iterator's type failing std::weakly_incrementable etc.
 //  constexpr     iterator  begin()       noexcept { return {m_begin}; }
-  constexpr const_iterator  begin() const noexcept { return {m_begin}; }
-  constexpr const_iterator cbegin() const noexcept { return {m_begin}; }
-  constexpr       iterator    end()       noexcept { return {nullptr}; }
-  constexpr const_iterator    end() const noexcept { return {nullptr}; }
-  constexpr const_iterator   cend() const noexcept { return {nullptr}; }
+  constexpr const_iterator  begin() const noexcept { return {m_begin,&m_root}; }
+  constexpr const_iterator cbegin() const noexcept { return {m_begin,&m_root}; }
+  constexpr       iterator    end()       noexcept { return {nullptr,&m_root}; }
+  constexpr const_iterator    end() const noexcept { return {nullptr,&m_root}; }
+  constexpr const_iterator   cend() const noexcept { return {nullptr,&m_root}; }
   constexpr size_type        size() const noexcept { return m_size;    }
   [[nodiscard]]
   constexpr bool            empty() const noexcept { return 0==m_size; }
@@ -155,7 +190,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   constexpr const_iterator find(const Key &key) const {
@@ -168,7 +203,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   template <class K>
@@ -182,7 +217,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   template <class K>
@@ -196,7 +231,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   constexpr void rotate_left(node *&n) {
@@ -263,7 +298,7 @@ public:
     ins(m_root,nullptr,ins);
     m_root->c = BLACK; // make_black
 
-    return {iterator{ret_node},added};
+    return {iterator{ret_node,&m_root},added};
   }
 //  std::pair<iterator,bool> insert( value_type&& value );
 
-- 
2.43.0


From 409a9ccd53b9de17c451efd3f9dd2cb931a0c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 34/63] fix: complex transcendental functions can be evaluated
 in constant expressions

---
 include/cest/complex.hpp | 110 +++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index c69a50c..17316c1 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -38,7 +38,7 @@ namespace cest
   ///  Return magnitude of @a z.
   template<typename _Tp> _Tp constexpr abs(const complex<_Tp>&);
   ///  Return phase angle of @a z.
-  template<typename _Tp> _Tp arg(const complex<_Tp>&);
+  template<typename _Tp> constexpr _Tp arg(const complex<_Tp>&);
   ///  Return @a z magnitude squared.
   template<typename _Tp> _Tp _GLIBCXX20_CONSTEXPR norm(const complex<_Tp>&);
 
@@ -46,38 +46,38 @@ namespace cest
   template<typename _Tp>
     _GLIBCXX20_CONSTEXPR complex<_Tp> conj(const complex<_Tp>&);
   ///  Return complex with magnitude @a rho and angle @a theta.
-  template<typename _Tp> complex<_Tp> polar(const _Tp&, const _Tp& = 0);
+  template<typename _Tp> constexpr complex<_Tp> polar(const _Tp&, const _Tp& = 0);
 
   // Transcendentals:
   /// Return complex cosine of @a z.
-  template<typename _Tp> complex<_Tp> cos(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> cos(const complex<_Tp>&);
   /// Return complex hyperbolic cosine of @a z.
-  template<typename _Tp> complex<_Tp> cosh(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> cosh(const complex<_Tp>&);
   /// Return complex base e exponential of @a z.
-  template<typename _Tp> complex<_Tp> exp(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> exp(const complex<_Tp>&);
   /// Return complex natural logarithm of @a z.
-  template<typename _Tp> complex<_Tp> log(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> log(const complex<_Tp>&);
   /// Return complex base 10 logarithm of @a z.
-  template<typename _Tp> complex<_Tp> log10(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> log10(const complex<_Tp>&);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const complex<_Tp>&, int);
+  template<typename _Tp> constexpr complex<_Tp> pow(const complex<_Tp>&, int);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const complex<_Tp>&, const _Tp&);
+  template<typename _Tp> constexpr complex<_Tp> pow(const complex<_Tp>&, const _Tp&);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const complex<_Tp>&,
+  template<typename _Tp> constexpr complex<_Tp> pow(const complex<_Tp>&,
                                           const complex<_Tp>&);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const _Tp&, const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> pow(const _Tp&, const complex<_Tp>&);
   /// Return complex sine of @a z.
-  template<typename _Tp> complex<_Tp> sin(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> sin(const complex<_Tp>&);
   /// Return complex hyperbolic sine of @a z.
-  template<typename _Tp> complex<_Tp> sinh(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> sinh(const complex<_Tp>&);
   /// Return complex square root of @a z.
-  template<typename _Tp> complex<_Tp> sqrt(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> sqrt(const complex<_Tp>&);
   /// Return complex tangent of @a z.
-  template<typename _Tp> complex<_Tp> tan(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> tan(const complex<_Tp>&);
   /// Return complex hyperbolic tangent of @a z.
-  template<typename _Tp> complex<_Tp> tanh(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> tanh(const complex<_Tp>&);
 
 
   // 26.2.2  Primary template class complex
@@ -599,7 +599,7 @@ namespace cest
 
   // 26.2.7/4: arg(__z): Returns the phase angle of __z.
   template<typename _Tp>
-    inline _Tp
+    constexpr _Tp
     __complex_arg(const complex<_Tp>& __z)
     { return  atan2(__z.imag(), __z.real()); }
 
@@ -615,11 +615,11 @@ namespace cest
   { return __builtin_cargl(__z); }
 
   template<typename _Tp>
-    inline _Tp
+    constexpr _Tp
     arg(const complex<_Tp>& __z) { return __complex_arg(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline _Tp
+    constexpr _Tp
     arg(const complex<_Tp>& __z) { return __complex_arg(__z); }
 #endif
 
@@ -663,7 +663,7 @@ namespace cest
     }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     polar(const _Tp& __rho, const _Tp& __theta)
     {
       __glibcxx_assert( __rho >= 0 );
@@ -679,7 +679,7 @@ namespace cest
 
   // 26.2.8/1 cos(__z):  Returns the cosine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_cos(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -699,17 +699,17 @@ namespace cest
   { return __builtin_ccosl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cos(const complex<_Tp>& __z) { return __complex_cos(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cos(const complex<_Tp>& __z) { return __complex_cos(__z); }
 #endif
 
   // 26.2.8/2 cosh(__z): Returns the hyperbolic cosine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_cosh(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -729,17 +729,17 @@ namespace cest
   { return __builtin_ccoshl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cosh(const complex<_Tp>& __z) { return __complex_cosh(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cosh(const complex<_Tp>& __z) { return __complex_cosh(__z); }
 #endif
 
   // 26.2.8/3 exp(__z): Returns the complex base e exponential of x
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_exp(const complex<_Tp>& __z)
     { return cest::polar<_Tp>(exp(__z.real()), __z.imag()); }
 
@@ -755,18 +755,18 @@ namespace cest
   { return __builtin_cexpl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     exp(const complex<_Tp>& __z) { return __complex_exp(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     exp(const complex<_Tp>& __z) { return __complex_exp(__z); }
 #endif
 
   // 26.2.8/5 log(__z): Returns the natural complex logarithm of __z.
   //                    The branch cut is along the negative axis.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_log(const complex<_Tp>& __z)
     { return complex<_Tp>(log(cest::abs(__z)), cest::arg(__z)); }
 
@@ -782,22 +782,22 @@ namespace cest
   { return __builtin_clogl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     log(const complex<_Tp>& __z) { return __complex_log(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     log(const complex<_Tp>& __z) { return __complex_log(__z); }
 #endif
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     log10(const complex<_Tp>& __z)
     { return cest::log(__z) / log(_Tp(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_sin(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -817,17 +817,17 @@ namespace cest
   { return __builtin_csinl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sin(const complex<_Tp>& __z) { return __complex_sin(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sin(const complex<_Tp>& __z) { return __complex_sin(__z); }
 #endif
 
   // 26.2.8/11 sinh(__z): Returns the hyperbolic sine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_sinh(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -847,18 +847,18 @@ namespace cest
   { return __builtin_csinhl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sinh(const complex<_Tp>& __z) { return __complex_sinh(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sinh(const complex<_Tp>& __z) { return __complex_sinh(__z); }
 #endif
 
   // 26.2.8/13 sqrt(__z): Returns the complex square root of __z.
   //                     The branch cut is on the negative axis.
   template<typename _Tp>
-    complex<_Tp>
+    constexpr complex<_Tp>
     __complex_sqrt(const complex<_Tp>& __z)
     {
       _Tp __x = __z.real();
@@ -891,18 +891,18 @@ namespace cest
   { return __builtin_csqrtl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sqrt(const complex<_Tp>& __z) { return __complex_sqrt(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sqrt(const complex<_Tp>& __z) { return __complex_sqrt(__z); }
 #endif
 
   // 26.2.8/14 tan(__z):  Return the complex tangent of __z.
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
     { return cest::sin(__z) / cest::cos(__z); }
 
@@ -918,11 +918,11 @@ namespace cest
   { return __builtin_ctanl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tan(const complex<_Tp>& __z) { return __complex_tan(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tan(const complex<_Tp>& __z) { return __complex_tan(__z); }
 #endif
 
@@ -930,7 +930,7 @@ namespace cest
   // 26.2.8/15 tanh(__z):  Returns the hyperbolic tangent of __z.
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
     { return cest::sinh(__z) / cest::cosh(__z); }
 
@@ -946,11 +946,11 @@ namespace cest
   { return __builtin_ctanhl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tanh(const complex<_Tp>& __z) { return __complex_tanh(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tanh(const complex<_Tp>& __z) { return __complex_tanh(__z); }
 #endif
 
@@ -959,7 +959,7 @@ namespace cest
   //                          raised to the __y-th power.  The branch
   //                          cut is on the negative axis.
   template<typename _Tp>
-    complex<_Tp>
+    constexpr complex<_Tp>
     __complex_pow_unsigned(complex<_Tp> __x, unsigned __n)
     {
       complex<_Tp> __y = __n % 2 ? __x : complex<_Tp>(1);
@@ -981,7 +981,7 @@ namespace cest
   //   http://gcc.gnu.org/ml/libstdc++/2013-01/msg00058.html
   // and also PR57974.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __z, int __n)
     {
       return __n < 0
@@ -990,7 +990,7 @@ namespace cest
     }
 
   template<typename _Tp>
-    complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const _Tp& __y)
     {
 #if ! _GLIBCXX_USE_C99_COMPLEX
@@ -1005,7 +1005,7 @@ namespace cest
     }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
     { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
@@ -1024,18 +1024,18 @@ namespace cest
   { return __builtin_cpowl(__x, __y); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
     { return __complex_pow(__x.__rep(), __y.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
     { return __complex_pow(__x, __y); }
 #endif
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
       return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
-- 
2.43.0


From b2770155ea96a4e2c65bcbbd1b79061458ab5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:03 +0000
Subject: [PATCH 35/63] fix: writing a long to an output stream links and
 prints it

---
 include/cest/ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 5450295..8d6e0e2 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -63,7 +63,10 @@ public:
 
   constexpr __ostream_type&
   operator<<(long __n)
-  { return _M_insert(__n); }
+  {
+    impl::runtime_ostream(*this, __n);
+    return *this;
+  }
 
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
-- 
2.43.0


From 790b76a83af552c974c87bfd78f60a4249dba0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:03 +0000
Subject: [PATCH 36/63] fix: writing a unique_ptr or shared_ptr to an output
 stream compiles

---
 include/cest/ostream.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 8d6e0e2..dc16753 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -78,6 +78,12 @@ public:
     return *this;
   }
 
+  // for the stream operators of the smart pointers
+  constexpr __ostream_type& operator<<(const void* __p)                       {
+    impl::runtime_ostream(*this, __p);
+    return *this;
+  }
+
   constexpr __ostream_type& flush();
 
   protected:
-- 
2.43.0


From 4f23d6a6b72d6168f57463e5de5f498671fc98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:03 +0000
Subject: [PATCH 37/63] fix: flush() delivers what was written to the standard
 streams

---
 include/cest/ostream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index dc16753..878adbd 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -161,6 +161,7 @@ endl(basic_ostream<CharT, Traits> &os)
       // _GLIBCXX_RESOLVE_LIB_DEFECTS
       // DR 60. What is a formatted input function?
       // basic_ostream::flush() is *not* an unformatted output function.
+      impl::runtime_ostream(*this, std::flush);
       ios_base::iostate __err = ios_base::goodbit;
       __try
   {
-- 
2.43.0


From 4ed4c0c50939182718ad4824b086b61dd6ef9a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:35 +0000
Subject: [PATCH 38/63] fix: a const function can be called

---
 include/cest/functional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index 302fe54..c8ffcb2 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -58,7 +58,7 @@ class function<R (Args...)>
   cest::unique_ptr<virt_impl_f<R, Args...>> f_;
 
 public:
-  constexpr R operator()(Args... args) {
+  constexpr R operator()(Args... args) const {
     return f_->operator()(std::forward<Args>(args)...);
   }
 
@@ -87,7 +87,7 @@ class function<void (Args...)>
   cest::unique_ptr<virt_impl_f<void, Args...>> f_;
 
 public:
-  constexpr void operator()(Args... args) {
+  constexpr void operator()(Args... args) const {
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-- 
2.43.0


From 82e86ef4cd8e3f22181e6ae2c568195b4b096f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:31 +0000
Subject: [PATCH 39/63] fix: flush() of a wide stream compiles

---
 include/cest/runtime_ostream.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 24ea8ea..1561450 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -26,12 +26,14 @@ constexpr void runtime_ostream(
   std::basic_ostream<CharT,Traits>& (*fp)(std::basic_ostream<CharT,Traits>&)
 )
 {
-  if (!std::is_constant_evaluated())
-  {
-    if      (&cest::cout == &os) std::cout << fp;
-    else if (&cest::cerr == &os) std::cerr << fp;
-    else if (&cest::clog == &os) std::clog << fp;
-  }
+  // there are no wide standard streams
+  if constexpr (std::is_same_v<basic_ostream<char>, basic_ostream<CharT,Traits>>)
+    if (!std::is_constant_evaluated())
+    {
+      if      (&cest::cout == &os) std::cout << fp;
+      else if (&cest::cerr == &os) std::cerr << fp;
+      else if (&cest::clog == &os) std::clog << fp;
+    }
 }
 
 } // namespace impl
-- 
2.43.0


From 2a2830099ca912e69dc4adb07e056c66e76604d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:06 +0000
Subject: [PATCH 40/63] fix: const_iterators of list and forward_list are
 default constructible

---
 include/cest/forward_list.hpp | 1 +
 include/cest/list.hpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 86fad80..08e3eef 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -70,6 +70,7 @@ struct forward_list {
     using pointer           = const value_type*;
     using iterator_category = std::forward_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index bd2b123..08dd928 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -102,6 +102,7 @@ struct list {
     using pointer           = const value_type*;
     using iterator_category = std::bidirectional_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
     
-- 
2.43.0


From 0a5f8ee38732b0be09626764f0521c8e0348c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 41/63] fix: complex log10 did not compile for complex<float>

---
 include/cest/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 17316c1..bf84c32 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -793,7 +793,7 @@ namespace cest
   template<typename _Tp>
     constexpr complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return cest::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / _Tp(log(_Tp(10.0))); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
-- 
2.43.0


From e5b957a9c3b1c7e76ac44a695323ba63da66a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 42/63] fix: the format flags of ios_base had no definition, so
 taking the address of one did not link

---
 include/cest/ios_base.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index e36f348..3b6d01a 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -144,24 +144,24 @@ class ios_base
 {
 public:
   typedef _Ios_Fmtflags fmtflags;
-  static const fmtflags boolalpha =   _S_boolalpha;
-  static const fmtflags dec =         _S_dec;
-  static const fmtflags fixed =       _S_fixed;
-  static const fmtflags hex =         _S_hex;
-  static const fmtflags internal =    _S_internal;
-  static const fmtflags left =        _S_left;
-  static const fmtflags oct =         _S_oct;
-  static const fmtflags right =       _S_right;
-  static const fmtflags scientific =  _S_scientific;
-  static const fmtflags showbase =    _S_showbase;
-  static const fmtflags showpoint =   _S_showpoint;
-  static const fmtflags showpos =     _S_showpos;
-  static const fmtflags skipws =      _S_skipws;
-  static const fmtflags unitbuf =     _S_unitbuf;
-  static const fmtflags uppercase =   _S_uppercase;
-  static const fmtflags adjustfield = _S_adjustfield;
-  static const fmtflags basefield =   _S_basefield;
-  static const fmtflags floatfield =  _S_floatfield;
+  static constexpr fmtflags boolalpha =   _S_boolalpha;
+  static constexpr fmtflags dec =         _S_dec;
+  static constexpr fmtflags fixed =       _S_fixed;
+  static constexpr fmtflags hex =         _S_hex;
+  static constexpr fmtflags internal =    _S_internal;
+  static constexpr fmtflags left =        _S_left;
+  static constexpr fmtflags oct =         _S_oct;
+  static constexpr fmtflags right =       _S_right;
+  static constexpr fmtflags scientific =  _S_scientific;
+  static constexpr fmtflags showbase =    _S_showbase;
+  static constexpr fmtflags showpoint =   _S_showpoint;
+  static constexpr fmtflags showpos =     _S_showpos;
+  static constexpr fmtflags skipws =      _S_skipws;
+  static constexpr fmtflags unitbuf =     _S_unitbuf;
+  static constexpr fmtflags uppercase =   _S_uppercase;
+  static constexpr fmtflags adjustfield = _S_adjustfield;
+  static constexpr fmtflags basefield =   _S_basefield;
+  static constexpr fmtflags floatfield =  _S_floatfield;
 
   typedef _Ios_Iostate iostate;
   static constexpr iostate badbit  = _S_badbit;
-- 
2.43.0


From 608868dd743c50034270aaf3a62d5516212f6782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 43/63] fix: istream.hpp and ostream.hpp alone could not be
 used: tie() needs basic_ostream, and output the stream objects

---
 include/cest/istream.hpp | 2 ++
 include/cest/ostream.hpp | 2 ++
 include/cest/sstream.hpp | 2 ++
 include/cest/string.hpp  | 3 ++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cest/istream.hpp b/include/cest/istream.hpp
index b89df35..1283e03 100644
--- a/include/cest/istream.hpp
+++ b/include/cest/istream.hpp
@@ -267,4 +267,6 @@ using wistream = basic_istream<wchar_t>;
 
 } // namespace cest
 
+#include "sstream.hpp" // through which basic_ostream (see tie) is defined
+
 #endif // _CEST_ISTREAM_HPP_
diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 878adbd..1a46aa1 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -216,4 +216,6 @@ endl(basic_ostream<CharT, Traits> &os)
 
 } // namespace cest
 
+#include "sstream.hpp" // through which cest::cout is defined
+
 #endif // _CEST_OSTREAM_HPP_
diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 8dd0f85..1c3d311 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -209,4 +209,6 @@ using wstringstream = basic_stringstream<wchar_t>;
 
 } // namespace cest
 
+#include "iostream.hpp" // the stream objects; made of string buffers
+
 #endif // _CEST_SSTREAM_HPP_
diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 3558e45..5a82726 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -1,7 +1,6 @@
 #ifndef _CEST_STRING_HPP_
 #define _CEST_STRING_HPP_
 
-#include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
 #include <string_view> // std::basic_string_view
@@ -393,4 +392,6 @@ using u32string = basic_string<char32_t>;
 
 } // namespace cest
 
+#include "ostream.hpp" // after basic_string, of which the stream buffers are made
+
 #endif // _CEST_STRING_HPP_
-- 
2.43.0


From e7903b81eececc749a92717cc357acc94a33ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 44/63] fix: basic_string::npos had no definition, so binding a
 reference to it did not link

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 5a82726..306513a 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -32,7 +32,7 @@ public:
   using reverse_iterator    = std::reverse_iterator<iterator>;
   using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-  static const size_type npos = static_cast<size_type>(-1);
+  static constexpr size_type npos = static_cast<size_type>(-1);
 
   constexpr basic_string() : basic_string( Allocator() ) {}
 
-- 
2.43.0


From dcbc5852f5f02ab7eb04ff101b14feb4c9519c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 45/63] fix: a comparator throwing in set or map insert left
 the size without the element's place

The new node was linked before the comparison that decides whether it is the first one.
---
 include/cest/map.hpp | 3 ++-
 include/cest/set.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 7dc677a..0363e37 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -367,7 +367,8 @@ public:
           throw;
         }
         n = ret_node = new_node;
-        m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
+        // a new first node is where the old one had no left child
+        m_begin = (!m_begin || &n == &m_begin->l) ? n : m_begin;
         added = true;
         m_size++;
         return;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index d084e8c..321f5a0 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -260,7 +260,8 @@ public:
           throw;
         }
         n = ret_node = new_node;
-        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
+        // a new first node is where the old one had no left child
+        m_begin = (!m_begin || &n == &m_begin->l) ? n : m_begin;
         added = true;
         m_size++;
         return;
-- 
2.43.0


From 2b090a4157b3563d12cae84678ab6905b223bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 46/63] fix: copies of a shared_ptr in different threads raced
 on the use count

---
 include/cest/shared_ptr.hpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index d3bd59b..3bced07 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -4,6 +4,7 @@
 // TODO: Sharing subobjects
 // https://www.justsoftwaresolutions.co.uk/cplusplus/shared-ptr-secret-constructor.html
 
+#include <atomic>
 #include <type_traits>
 
 #include "cest/iostream.hpp"
@@ -49,6 +50,30 @@ protected:
     virtual constexpr void destroy() = 0;
     virtual constexpr ~ctrl() {}
 
+    // The owners of an object may belong to different threads
+    constexpr void acquire() noexcept
+    {
+      if (std::is_constant_evaluated())
+        ++count_;
+      else
+        std::atomic_ref(count_).fetch_add(1, std::memory_order_relaxed);
+    }
+
+    constexpr bool release() noexcept // true for the last owner
+    {
+      if (std::is_constant_evaluated())
+        return !--count_;
+      return std::atomic_ref(count_).fetch_sub(1,
+                                               std::memory_order_acq_rel) == 1;
+    }
+
+    constexpr long count() noexcept
+    {
+      if (std::is_constant_evaluated())
+        return count_;
+      return std::atomic_ref(count_).load(std::memory_order_relaxed);
+    }
+
     long count_;
   };
 
@@ -86,11 +111,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
 
   constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
   {
@@ -102,7 +127,7 @@ public:
 
   constexpr ~shared_ptr_base()
   {
-    if (pctrl_ && !--pctrl_->count_)
+    if (pctrl_ && pctrl_->release())
     {
       pctrl_->destroy();
       delete pctrl_;
@@ -110,7 +135,7 @@ public:
   }
 
   constexpr long use_count() const noexcept {
-    return pctrl_ ? pctrl_->count_ : 0;
+    return pctrl_ ? pctrl_->count() : 0;
   }
 
   constexpr element_type* get() const noexcept { return ptr_; }
-- 
2.43.0


From ebf2b65e4baf60d13e1ecd9cb761e975ddb16c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 47/63] fix: shared_ptr leaked its object when the control
 block could not be allocated

---
 include/cest/shared_ptr.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 3bced07..a7497ea 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -104,11 +104,18 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del_for<Y>>{ptr,{}}} {}
+    : shared_ptr_base(ptr, def_del_for<Y>{}) {}
 
   template <class Y, class Deleter>
-  constexpr shared_ptr_base(Y* ptr, Deleter del)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
+  constexpr shared_ptr_base(Y* ptr, Deleter del) : ptr_{ptr}
+  {
+    try {
+      pctrl_ = new ctrl_derived<Y,Deleter>{ptr,del};
+    } catch (...) {
+      del(ptr); // ownership was taken; don't leak it
+      throw;
+    }
+  }
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
-- 
2.43.0


From 992e84863fe334fda2f4fd0dbd2425e28a5234ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 48/63] fix: vector erase did not compile for elements that can
 only be moved

---
 include/cest/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index f270fc5..349afb5 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -214,7 +214,10 @@ public:
   {
     iterator it1 = first, it2 = last;
     for (; it2 != end(); it2++) {
-      *it1++ = *it2;
+      if constexpr (std::is_copy_assignable_v<T>)
+        *it1++ = *it2;
+      else
+        *it1++ = std::move(*it2);
     }
     const auto num_to_erase = last - first;
     std::destroy_n(end() - num_to_erase, num_to_erase);
-- 
2.43.0


From da55f027ee7ea7219cf75fe299c3bad280b9f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 49/63] fix: forward_list copied the elements pushed or
 inserted as rvalues

---
 include/cest/forward_list.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 08e3eef..b14e749 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -26,8 +26,9 @@ struct forward_list {
 
   struct        node_base { node_base* next = nullptr; };
   struct node : node_base {
-    constexpr node(const value_type &v, node_base* n = nullptr)
-                                                  : node_base{n}, value{v} {}
+    template <class U>
+    constexpr node(U&& v, node_base* n)
+                                : node_base{n}, value(std::forward<U>(v)) {}
     value_type value;
   };
 
@@ -202,11 +203,12 @@ struct forward_list {
     return static_cast<node*>(m_front.next)->value;
   }
 
-  constexpr node* make_node(const value_type& value, node_base* next = nullptr)
+  template <class U>
+  constexpr node* make_node(U&& value, node_base* next = nullptr)
   {
     node* new_node = m_node_alloc.allocate(1);
     try {
-      return std::construct_at(new_node, value, next);
+      return std::construct_at(new_node, std::forward<U>(value), next);
     } catch (...) {
       m_node_alloc.deallocate(new_node, 1);
       throw;
-- 
2.43.0


From 47681b0a8c1912d74e1fe607a16f43e3b930cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 50/63] fix: list emplace copied a temporary instead of
 constructing the element in place

---
 include/cest/list.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 08dd928..70d5e64 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -51,7 +51,9 @@ struct list {
 
   struct node : node_base
   {
-    constexpr node(const value_type &v) : value(v) {}
+    template <class... Args>
+    constexpr node(std::in_place_t, Args&&... args)
+      : value(std::forward<Args>(args)...) {}
     value_type value;
   };
 
@@ -236,7 +238,7 @@ struct list {
   constexpr iterator emplace(const_iterator pos, Args&&... args)
   {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = make_node(value_type(std::forward<Args>(args)...));
+    node* new_node = make_node(std::forward<Args>(args)...);
 
     // List_node_base::_M_hook
     new_node->next = p;
@@ -271,28 +273,29 @@ struct list {
   template <typename... Args >
   constexpr reference emplace_front(Args&&... args)
   {
-    insert(begin(), value_type(std::forward<Args>(args)...));
+    emplace(begin(), std::forward<Args>(args)...);
     return front();
   }
 
   template <typename... Args >
   constexpr reference emplace_back(Args&&... args)
   {
-    insert(end(), value_type(std::forward<Args>(args)...));
+    emplace(end(), std::forward<Args>(args)...);
     return back();
   }
 
   constexpr void pop_back()  { erase({m_node.prev}); }
   constexpr void pop_front() { erase(begin());       }
 
-  constexpr node* make_node(const value_type &value)
+  template <class... Args>
+  constexpr node* make_node(Args&&... args)
   {
     node* new_node = m_node_alloc.allocate(1);
 
     // As an implicit-lifetime type (P0593R6), node construction isn't needed
     //std::construct_at(&new_node->value, value);
     try {
-      std::construct_at(new_node, value);
+      std::construct_at(new_node, std::in_place, std::forward<Args>(args)...);
     } catch (...) {
       m_node_alloc.deallocate(new_node, 1);
       throw;
-- 
2.43.0


From 195b477ff286f845595fc55e65edb09fdc810bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:05 +0000
Subject: [PATCH 51/63] fix: set and map copied each inserted element twice

---
 include/cest/map.hpp | 2 +-
 include/cest/set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 0363e37..917715c 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -222,7 +222,7 @@ public:
   enum eCol { RED, BLACK };
 
   struct node {
-    constexpr node(value_type x, node* l, node* r, node* p, eCol c)
+    constexpr node(const value_type& x, node* l, node* r, node* p, eCol c)
       : x(x), l(l), r(r), p(p), c(c) {}
     value_type x;
     node      *l, *r, *p;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 321f5a0..3227bf4 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -125,7 +125,7 @@ public:
   enum eCol { RED, BLACK };
 
   struct node {
-    constexpr node(value_type x, node* l, node* r, node* p, eCol c)
+    constexpr node(const value_type& x, node* l, node* r, node* p, eCol c)
       : x(x), l(l), r(r), p(p), c(c) {}
     value_type x;
     node      *l, *r, *p;
-- 
2.43.0


From cc6a0232a16bfaf9fdc6c76b6794aaec3c18dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 52/63] fix: make_unique list-initialised the object it makes

make_unique<vector<int>>(3, 7) made a vector of two elements, and arguments
which need a narrowing conversion did not compile.
---
 include/cest/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 637fff2..e4a89d3 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -134,7 +134,7 @@ operator>=(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
 template<typename T, typename... Args>
 constexpr unique_ptr<T> make_unique( Args&&... args )
 {
-  return { new T{ std::forward<Args>(args)... } };
+  return { new T( std::forward<Args>(args)... ) };
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 68853676347b7acb3f8956d07009b1602be20e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 53/63] fix: copies of set and map did not take the comparator

A copy of a set whose comparator has state (a direction, a key table) was
ordered by a default constructed comparator.
---
 include/cest/map.hpp | 11 ++++++++++-
 include/cest/set.hpp | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 917715c..0f063df 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -232,7 +232,8 @@ public:
   constexpr  map() : m_root{}, m_begin{}, m_size{} {}
   constexpr ~map() { clear(); }
 
-  constexpr map(const map& other) : map()
+  constexpr map(const map& other)
+    : map(other.m_comp)
   {
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
@@ -242,6 +243,7 @@ public:
   {
     if (this == &other) return *this;
     clear();
+    m_comp = other.m_comp; // the elements are in its order
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
     return *this;
@@ -409,6 +411,13 @@ public:
     return {iterator(ret_node,&m_root),added};
   }
 
+private:
+
+  explicit constexpr map(const Compare& comp)
+    : m_root{}, m_begin{}, m_size{}, m_comp(comp) {}
+
+public:
+
   node *m_root;
   node *m_begin;
   size_type m_size;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 3227bf4..3ba8002 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -134,7 +134,8 @@ public:
 
   constexpr set() : m_root{}, m_begin{}, m_size{} {}
 
-  constexpr set(const set& other) : set()
+  constexpr set(const set& other)
+    : set(other.m_comp)
   {
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
@@ -146,6 +147,7 @@ public:
   {
     if (this == &other) return *this;
     clear();
+    m_comp = other.m_comp; // the elements are in its order
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
     return *this;
@@ -308,6 +310,13 @@ public:
     return this->insert(value).first;
   }
 
+private:
+
+  explicit constexpr set(const Compare& comp)
+    : m_root{}, m_begin{}, m_size{}, m_comp(comp) {}
+
+public:
+
   node *m_root;
   node *m_begin;
   size_type m_size;
-- 
2.43.0


From bdab78dfaf8b03865bbd08e233bf1b2b7c871e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 54/63] fix: copies of containers did not take the allocator

The copies of vector, deque, list, forward_list, set, map and string were
given a default constructed allocator (string: the allocator itself) rather
than what select_on_container_copy_construction makes of the original's;
forward_list's copy assignment handed the nodes of one allocator to another,
and the growth of a vector needed an assignable allocator.
---
 include/cest/deque.hpp        |  4 +++-
 include/cest/forward_list.hpp | 12 ++++++++++--
 include/cest/list.hpp         |  6 +++++-
 include/cest/map.hpp          |  9 ++++++---
 include/cest/set.hpp          |  9 ++++++---
 include/cest/string.hpp       |  3 ++-
 include/cest/vector.hpp       | 23 ++++++++++++++++-------
 7 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 6baf179..f721d99 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -246,7 +246,9 @@ public:
     m_size = 0;
   }
 
-  constexpr deque(const deque& other) : deque()
+  constexpr deque(const deque& other)
+    : deque(std::allocator_traits<Allocator>::
+              select_on_container_copy_construction(other.m_alloc))
   {
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index b14e749..4841326 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -99,7 +99,15 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x) : forward_list()
+  explicit constexpr forward_list(const Allocator& alloc)
+    : m_node_alloc(alloc) {}
+
+  constexpr forward_list(const forward_list& x)
+    : forward_list(x, std::allocator_traits<Allocator>::
+        select_on_container_copy_construction(x.get_allocator())) {}
+
+  constexpr forward_list(const forward_list& x, const Allocator& alloc)
+    : forward_list(alloc)
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
@@ -113,7 +121,7 @@ struct forward_list {
 
   constexpr forward_list& operator=(const forward_list& x)
   {
-    forward_list tmp(x);
+    forward_list tmp(x, get_allocator()); // swap only exchanges the nodes
     this->swap(tmp);
     return *this;
   }
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 70d5e64..b412f02 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -140,9 +140,13 @@ struct list {
   };
   
   constexpr list() : m_size{} {}
+  explicit constexpr list(const Allocator& alloc)
+    : m_size{}, m_node_alloc(alloc) {}
   constexpr ~list() { clear(); }
 
-  constexpr list(const list& other) : list()
+  constexpr list(const list& other)
+    : list(std::allocator_traits<Allocator>::
+             select_on_container_copy_construction(other.get_allocator()))
   {
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 0f063df..a2308e5 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -233,7 +233,9 @@ public:
   constexpr ~map() { clear(); }
 
   constexpr map(const map& other)
-    : map(other.m_comp)
+    : map(other.m_comp, std::allocator_traits<Allocator>::
+          select_on_container_copy_construction(
+            allocator_type(other.m_node_alloc)))
   {
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
@@ -413,8 +415,9 @@ public:
 
 private:
 
-  explicit constexpr map(const Compare& comp)
-    : m_root{}, m_begin{}, m_size{}, m_comp(comp) {}
+  constexpr map(const Compare& comp, const Allocator& alloc)
+    : m_root{}, m_begin{}, m_size{}, m_alloc(alloc), m_comp(comp),
+      m_node_alloc(alloc) {}
 
 public:
 
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 3ba8002..bbf5cbc 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -135,7 +135,9 @@ public:
   constexpr set() : m_root{}, m_begin{}, m_size{} {}
 
   constexpr set(const set& other)
-    : set(other.m_comp)
+    : set(other.m_comp, std::allocator_traits<Allocator>::
+          select_on_container_copy_construction(
+            allocator_type(other.m_node_alloc)))
   {
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
@@ -312,8 +314,9 @@ public:
 
 private:
 
-  explicit constexpr set(const Compare& comp)
-    : m_root{}, m_begin{}, m_size{}, m_comp(comp) {}
+  constexpr set(const Compare& comp, const Allocator& alloc)
+    : m_root{}, m_begin{}, m_size{}, m_alloc(alloc), m_comp(comp),
+      m_node_alloc(alloc) {}
 
 public:
 
diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 306513a..ef84889 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   : basic_string(s, traits_type::length(s), alloc) {}
 
   constexpr basic_string(const basic_string& str)
-  : basic_string(str.data(), str.size(), str.get_allocator()) {}
+  : basic_string(str.data(), str.size(), std::allocator_traits<Allocator>::
+      select_on_container_copy_construction(str.m_alloc)) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 349afb5..c120b87 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -33,25 +33,25 @@ public:
   constexpr void swap(vector& other)
   {
     using std::swap;
-    swap(m_size, other.m_size);
-    swap(m_capacity, other.m_capacity);
-    swap(m_p, other.m_p);
+    swap_storage(other);
     swap(m_alloc, other.m_alloc);
   }
 
   explicit constexpr vector(const Allocator& alloc)
     : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc) {}
 
-  constexpr vector(const vector& other) : vector()
+  constexpr vector(const vector& other)
+    : vector(std::allocator_traits<Allocator>::
+               select_on_container_copy_construction(other.m_alloc))
   {
     reserve(other.capacity());
     for (; m_size < other.size(); m_size++)
       std::construct_at(&m_p[m_size], other.m_p[m_size]);
   }
 
-  constexpr vector(vector&& other) : vector()
+  constexpr vector(vector&& other) : vector(other.m_alloc)
   {
-    swap(other);
+    swap_storage(other);
   }
 
   constexpr vector(size_type count,
@@ -243,7 +243,16 @@ private:
       std::destroy_at(&tmp.m_p[m_size]);
       throw;
     }
-    swap(tmp);
+    swap_storage(tmp);
+  }
+
+  // Exchanges everything but the allocators
+  constexpr void swap_storage(vector& other)
+  {
+    using std::swap;
+    swap(m_size, other.m_size);
+    swap(m_capacity, other.m_capacity);
+    swap(m_p, other.m_p);
   }
 
 public:
-- 
2.43.0


From 6285922b8b76a933137348791a6092d630cf043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:48 +0000
Subject: [PATCH 55/63] fix: copying a stream buffer left its pointers unset

The protected copy constructor of basic_streambuf, for classes derived from
it, has to copy the pointers of the areas.
---
 include/cest/streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index 470b250..ef3915f 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -97,7 +97,7 @@ protected:
 //  _M_buf_locale(locale())
   { }
 
-  constexpr basic_streambuf(const basic_streambuf& /*rhs*/) {}
+  constexpr basic_streambuf(const basic_streambuf& rhs) = default;
 
   constexpr char_type*
   eback() const { return _M_in_beg; }
-- 
2.43.0


From 00a849e59bd7529550125bf9f9712686d3eb1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:30 +0000
Subject: [PATCH 56/63] fix: swapr read its last argument through an overloaded
 comma

---
 include/cest/swap.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/swap.hpp b/include/cest/swap.hpp
index c5d6c6c..69fc1bc 100644
--- a/include/cest/swap.hpp
+++ b/include/cest/swap.hpp
@@ -6,6 +6,7 @@
 // A version of std::swap which works for 0 or more variables using C++17 fold
 // expressions. See https://pkeir.github.io/blog/2019/01/08/nary-swap/
 
+#include <memory>
 #include <utility>
 #include <type_traits>
 
@@ -43,7 +44,9 @@ noexcept (
   std::is_nothrow_move_assignable_v<T>
 )
 {
-  T tmp = std::move((xs , ...));
+  T *last = nullptr;
+  ((last = std::addressof(xs)) , ...); // not (xs , ...): T may overload comma
+  T tmp = std::move(*last);
   struct wrap {
     constexpr wrap operator+(wrap &&w) { w.x = std::move(x); return *this; }
     T &x;
-- 
2.43.0


From f17636140db73e481ac3e68dc3ee57300479c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 57/63] fix: shared_ptr could not share a part of an object,
 nor find the deleter of a derived one

---
 include/cest/shared_ptr.hpp | 42 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index a7497ea..36ec651 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -40,8 +40,8 @@ template <typename>
 
 namespace impl {
 
-template <typename T, typename Td>
-class shared_ptr_base
+// Not a template: pointers to an object and to a part of it share one ctrl
+class shared_ptr_ctrl
 {
 protected:
   struct ctrl
@@ -77,15 +77,32 @@ protected:
     long count_;
   };
 
+  template <class Deleter>
+  struct ctrl_deleter : public ctrl
+  {
+    constexpr ctrl_deleter(Deleter del) : del_{del} {}
+
+    Deleter del_;
+  };
+
   template <class U, class Deleter>
-  struct ctrl_derived : public ctrl
+  struct ctrl_derived : public ctrl_deleter<Deleter>
   {
-    constexpr ctrl_derived(U* ptr, Deleter del) : ptr_{ptr}, del_{del} {}
+    constexpr ctrl_derived(U* ptr, Deleter del)
+      : ctrl_deleter<Deleter>(del), ptr_{ptr} {}
     virtual constexpr void destroy() override { del_(ptr_); }
 
     U* ptr_;
-    Deleter del_;
+    using ctrl_deleter<Deleter>::del_;
   };
+};
+
+template <typename T, typename Td>
+class shared_ptr_base : protected shared_ptr_ctrl
+{
+protected:
+  template <typename, typename>
+    friend class shared_ptr_base;
 
   template <typename U>
   struct def_del : default_delete<U> {};
@@ -163,17 +180,10 @@ protected:
 template <class Deleter, class U>
 constexpr Deleter* get_deleter(const shared_ptr<U>& p) noexcept
 {
-  using elem_t = typename shared_ptr<U>::element_type;
-
-  if constexpr (std::is_invocable_v<Deleter,elem_t*>)
-  {
-    using ctrl_derived_t =
-      typename shared_ptr<U>::template ctrl_derived<elem_t,Deleter>;
-    auto ptr = dynamic_cast<ctrl_derived_t*>(p.pctrl_);
-    return ptr ? &ptr->del_ : nullptr;
-  } 
-  
-  return nullptr;
+  using ctrl_deleter_t =
+    typename shared_ptr<U>::template ctrl_deleter<Deleter>;
+  auto ptr = dynamic_cast<ctrl_deleter_t*>(p.pctrl_);
+  return ptr ? &ptr->del_ : nullptr;
 }
 
 } // namespace impl
-- 
2.43.0


From c9baf5cfbcb0420b588f4362b476682234fcfc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 58/63] fix: shared_ptr copied its deleter, so one that can
 only be moved did not compile

---
 include/cest/shared_ptr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 36ec651..0246448 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -80,7 +80,7 @@ protected:
   template <class Deleter>
   struct ctrl_deleter : public ctrl
   {
-    constexpr ctrl_deleter(Deleter del) : del_{del} {}
+    constexpr ctrl_deleter(Deleter&& del) : del_(std::move(del)) {}
 
     Deleter del_;
   };
@@ -89,7 +89,7 @@ protected:
   struct ctrl_derived : public ctrl_deleter<Deleter>
   {
     constexpr ctrl_derived(U* ptr, Deleter del)
-      : ctrl_deleter<Deleter>(del), ptr_{ptr} {}
+      : ctrl_deleter<Deleter>(std::move(del)), ptr_{ptr} {}
     virtual constexpr void destroy() override { del_(ptr_); }
 
     U* ptr_;
@@ -127,7 +127,7 @@ public:
   constexpr shared_ptr_base(Y* ptr, Deleter del) : ptr_{ptr}
   {
     try {
-      pctrl_ = new ctrl_derived<Y,Deleter>{ptr,del};
+      pctrl_ = new ctrl_derived<Y,Deleter>{ptr,std::move(del)};
     } catch (...) {
       del(ptr); // ownership was taken; don't leak it
       throw;
-- 
2.43.0


From 72f8299d015ad3ece43daf84620f1ba327fce3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 59/63] fix: shared_ptr<void> did not compile

---
 include/cest/shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 0246448..b0e1b6e 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -164,7 +164,7 @@ public:
 
   constexpr element_type* get() const noexcept { return ptr_; }
 
-  constexpr T& operator*() const noexcept { return *ptr_; }
+  constexpr std::add_lvalue_reference_t<T> operator*() const noexcept { return *ptr_; }
   constexpr T* operator->() const noexcept { return ptr_; }
 
   constexpr operator bool() const noexcept { return ptr_; }
-- 
2.43.0


From db7fbbb3d1e118c78901217aae469ad33306cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 60/63] fix: get_deleter of what cannot be a deleter did not
 compile

---
 include/cest/shared_ptr.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index b0e1b6e..3b61a67 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -180,10 +180,15 @@ protected:
 template <class Deleter, class U>
 constexpr Deleter* get_deleter(const shared_ptr<U>& p) noexcept
 {
-  using ctrl_deleter_t =
-    typename shared_ptr<U>::template ctrl_deleter<Deleter>;
-  auto ptr = dynamic_cast<ctrl_deleter_t*>(p.pctrl_);
-  return ptr ? &ptr->del_ : nullptr;
+  if constexpr (std::is_object_v<Deleter>)
+  {
+    using ctrl_deleter_t =
+      typename shared_ptr<U>::template ctrl_deleter<Deleter>;
+    auto ptr = dynamic_cast<ctrl_deleter_t*>(p.pctrl_);
+    return ptr ? &ptr->del_ : nullptr;
+  }
+
+  return nullptr;
 }
 
 } // namespace impl
-- 
2.43.0


From 3d01194beeb4750cfe08c2490f779f824b034431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 61/63] fix: sin, cos, sinh and cosh of large arguments took
 exponential time

---
 include/cest/cmath.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 65b069b..44264f9 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -33,12 +33,20 @@ namespace cest {
       return abs(g-x/g) < (tol*g) ? g : sqrt_helper(x,(g+x/g)/2.0);
     }
 
+    constexpr double sin_triple(const double s) { // sin(3a) where s is sin(a)
+      return 3*s - 4*cube(s);
+    }
+
     constexpr double sin_helper(const double x) {
-      return x < tol ? x : 3*(sin_helper(x/3.0)) - 4*cube(sin_helper(x/3.0));
+      return x < tol ? x : sin_triple(sin_helper(x/3.0));
+    }
+
+    constexpr double sinh_triple(const double s) {
+      return 3*s + 4*cube(s);
     }
 
     constexpr double sinh_helper(const double x) {
-      return x < tol ? x : 3*(sinh_helper(x/3.0)) + 4*cube(sinh_helper(x/3.0));
+      return x < tol ? x : sinh_triple(sinh_helper(x/3.0));
     }
 
     // atan formulae from http://mathonweb.com/algebra_e-book.htm
-- 
2.43.0


From c754f1c8236916d88d8b3caf2c7949bff878aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 62/63] fix: pow with a large exponent exhausted the stack, and
 with INT_MIN overflowed

---
 include/cest/cmath.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 44264f9..ecdc5ec 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -144,10 +144,10 @@ namespace cest {
   }
 
   constexpr double pow(double base, int exponent) {
-    return exponent <  0 ? 1.0 / pow(base,-exponent) :
-           exponent == 0 ? 1.                        :
-           exponent == 1 ? base                      :
-           base * pow(base,exponent-1);
+    double r = 1.; // a recursion for each factor would exhaust the stack
+    for (int i = exponent; i != 0; i += exponent < 0 ? 1 : -1)
+      r *= base;
+    return exponent <  0 ? 1.0 / r : r;
   }
 
   constexpr double sqrt(double x) {
-- 
2.43.0


From e88dcb721bde480391dcea56d9be60f813971a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:25 +0000
Subject: [PATCH 63/63] fix: a deque used as a queue never reused the chunks it
 left behind

---
 include/cest/deque.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index f721d99..8e4881f 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -395,6 +395,10 @@ private:
     m_chunks.push_back(m_alloc.allocate(CHUNK_SIZE));
   }
 
+  constexpr size_type free_back() const noexcept { // chunks after the last used
+    return m_chunks.size() - 1 - m_back_chunk;
+  }
+
   // The prepare functions return the place for a new first or last element,
   // after ensuring the chunks needed. The helpers then account for the element.
   constexpr value_type* push_front_prepare()
@@ -402,6 +406,14 @@ private:
     if (m_front != 0)
       return &m_chunks[m_front_chunk][m_front - 1];
 
+    if (m_front_chunk == 0 && free_back() > m_chunks.size() / 2)
+    {
+      m_front_chunk += free_back(); // use the chunks left behind by pop_back
+      m_back_chunk  += m_front_chunk;
+      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + m_front_chunk,
+                  m_chunks.rend());
+    }
+
     if (m_front_chunk == 0)
     {
       add_chunk();
@@ -415,6 +427,15 @@ private:
 
   constexpr value_type* push_back_prepare()
   {
+    if (m_back == CHUNK_SIZE - 1 && free_back() == 0 &&
+        m_front_chunk > m_chunks.size() / 2)
+    {
+      std::rotate(m_chunks.begin(), m_chunks.begin() + m_front_chunk,
+                  m_chunks.end()); // use the chunks left behind by pop_front
+      m_back_chunk -= m_front_chunk;
+      m_front_chunk = 0;
+    }
+
     if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)
       add_chunk();
 
-- 
2.43.0

