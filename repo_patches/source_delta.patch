From 9ddad62a1ad6f20c1b44cbe0a3e34e13df54e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 01/43] fix: remove_duplicates indexed its table with a
 negative char

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..e145422 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1432,16 +1432,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[0x100];
+      std::fill_n(table,0x100,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
-- 
2.43.0


From f479ba529cabab7fb61eba80a351df7873f878ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 02/43] fix: wildcard match stepped past the end of the data
 after an unmatched *

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index e145422..72d68de 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1927,6 +1927,9 @@ namespace strtk
                   ++d_itr;
                }
 
+               if (d_itr == data_end)
+                  return false;
+
                ++d_itr;
             }
             else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
-- 
2.43.0


From de7d8bbcda759c506873555f8211d67b5385a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 03/43] fix: find_all and ifind_all never returned for an empty
 pattern

---
 strtk.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 72d68de..785e491 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2064,6 +2064,10 @@ namespace strtk
       Iterator itr = begin;
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
+
+      if (0 == pattern_length)
+         return 0;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end)))
       {
          (*out) = std::make_pair(itr,itr + pattern_length);
@@ -2113,6 +2117,9 @@ namespace strtk
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
 
+      if (0 == pattern_length)
+         return 0;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
       {
          (*out) = std::make_pair(itr, itr + pattern_length);
-- 
2.43.0


From e44c7aed6c20823281f827211cc7511c9296665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 04/43] fix: offset_predicate read past its offset list when
 reused without rotation

---
 strtk.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 785e491..ee5c789 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3908,7 +3908,12 @@ namespace strtk
 
       inline int next() const
       {
-         int result = offset_list_[current_index_++];
+         int result = offset_list_[current_index_];
+
+         if (current_index_ < offset_list_size)
+         {
+            ++current_index_;
+         }
 
          if (rotate_ && (current_index_ >= offset_list_size))
          {
-- 
2.43.0


From d4c70341d7d1b49301c831f62efff372cc96f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 05/43] fix: convert_base64_to_bin read before its input when
 it was shorter than two characters

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ee5c789..9dedd32 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4679,10 +4679,11 @@ namespace strtk
                                  };
 
       const unsigned char* end_itr = end;
+      const std::size_t input_length = std::distance(begin,end);
 
-      if ('=' == *(end - 2))
+      if ((input_length > 1) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((input_length > 0) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From 78d58f9a7402066c71799eb0c64e0c0e9a725985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 06/43] fix: 32-bit byte swap lost two of the four bytes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9dedd32..13e0382 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13766,8 +13766,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 57e8be4ac24bacf866902d4997387808122b2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 07/43] fix: right-padded fixed-width writes copied past the
 end of the formatted text

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 13e0382..b4609cd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14604,7 +14604,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From a6314f23911d81fe992b627a79caa0b1ef7dedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 08/43] fix: reader ignored the given 64-bit element count when
 not reading it from the buffer

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b4609cd..c60277b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13995,7 +13995,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 498bb38ba2cff3ac8a2791feb094f38bde5dffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 09/43] fix: binary reader and writer capacity checks could
 wrap around

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c60277b..a7ed937 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14236,7 +14236,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_read_qty)
          {
-            return ((required_read_qty + amount_read_sofar_) <= buffer_length_);
+            return (required_read_qty <= (buffer_length_ - amount_read_sofar_));
          }
 
          template <typename Type>
@@ -14593,7 +14593,7 @@ namespace strtk
                                 const padding_mode pmode,
                                 const char padding = ' ')
          {
-            if (amount_written_sofar_ + size <= buffer_length_)
+            if (buffer_capacity_ok(size))
             {
                std::string s;
                s.reserve(size);
@@ -14633,7 +14633,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_write_qty)
          {
-            return ((required_write_qty + amount_written_sofar_) <= buffer_length_);
+            return (required_write_qty <= (buffer_length_ - amount_written_sofar_));
          }
 
          template <typename Type>
-- 
2.43.0


From ab4a4c4fa8d7d43d579ad06cdde93c622923b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 10/43] fix: binary vector transfer formed a reference to the
 first element of an empty vector

---
 strtk.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index a7ed937..017f0f6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14292,6 +14292,8 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
+                  if (0 == size)
+                     return true;
                   const std::size_t raw_size = sizeof(T) * size;
                   char* ptr = const_cast<char*>(reinterpret_cast<const char*>(&v[0]));
                   std::copy(r.buffer_, r.buffer_ + raw_size, ptr);
@@ -14683,6 +14685,8 @@ namespace strtk
                                                       const std::size_t& raw_size,
                                                       const std::vector<T,Allocator>& v)
                {
+                  if (0 == raw_size)
+                     return true;
                   const char* ptr = reinterpret_cast<const char*>(&v[0]);
                   std::copy(ptr, ptr + raw_size, w.buffer_);
                   w.buffer_ += raw_size;
-- 
2.43.0


From e8f08810b5b7fbabc061419fd0a5f02b99854986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 11/43] fix: text of the most negative value overflowed during
 signed conversion

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 017f0f6..772f19a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17509,9 +17509,11 @@ namespace strtk
                return false;
          }
 
-         t = t * 10 + static_cast<T>(digit);
+         if (last_digit == numeric<T>::ldpos)
+            result =  t * 10 + static_cast<T>(digit);
+         else
+            result = -t * 10 - static_cast<T>(digit);
 
-         result = (last_digit == numeric<T>::ldpos) ? t : -t;
          itr_external = itr;
          return true;
       }
-- 
2.43.0


From fbe39f2920255745d6d201a50a7ef2cb504075b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 12/43] fix: conversions of long refused values beyond 32 bits
 where long is 64 bits wide

---
 strtk.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 772f19a..6bb4240 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16932,10 +16932,11 @@ namespace strtk
       template<>
       struct numeric<long>
       {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
+         static const bool is_64bit             = (8 == sizeof(long));
+         static const unsigned int length       = is_64bit ? 19 : 10;
+         static const unsigned int size         = is_64bit ? 24 : 16;
+         static const unsigned int bound_length = is_64bit ? 19 : 10;
+         static const long m10                  = static_cast<long>(is_64bit ? 922337203685477580LL : 214748364LL);
          static const long ldpos                =  7;
          static const long ldneg                =  8;
       };
@@ -16943,10 +16944,11 @@ namespace strtk
       template<>
       struct numeric<unsigned long>
       {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
+         static const bool          is_64bit     = (8 == sizeof(unsigned long));
+         static const unsigned int  length       = is_64bit ? 20 : 10;
+         static const unsigned int  size         = is_64bit ? 24 : 16;
+         static const unsigned int  bound_length = is_64bit ? 20 : 10;
+         static const unsigned long m10          = static_cast<unsigned long>(is_64bit ? 1844674407370955161ULL : 429496729ULL);
          static const unsigned long ldpos        = 5;
       };
 
-- 
2.43.0


From daec7eb8937843557b35dc6e1a89218b1ae62fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 13/43] fix: scaling by a very small power of ten read past the
 end of the table of powers

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6bb4240..b37507d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16855,8 +16855,11 @@ namespace strtk
          }
          else
          {
-                     d /= fract10[          -std::numeric_limits<T>::min_exponent10];
-            return T(d / fract10[-exponent + std::numeric_limits<T>::min_exponent10]);
+            int remainder = -exponent + std::numeric_limits<T>::min_exponent10;
+            if (remainder >= fract10_size)
+               remainder = fract10_size - 1;
+                     d /= fract10[-std::numeric_limits<T>::min_exponent10];
+            return T(d / fract10[remainder]);
          }
       }
 
-- 
2.43.0


From a9d68d5be02a852f792eb5797ea8fa7d2d6a7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 14/43] fix: bounded container parsing of a range pair called
 an overload that does not exist

---
 strtk.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b37507d..b299620 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -9744,7 +9744,7 @@ namespace strtk
                               Sequence<T,Allocator>& sequence,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,sequence,split_option);
+      return parse_n(range.first,range.second,delimiters,n,sequence,split_option);
    }
 
    template <typename InputIterator,
@@ -9757,7 +9757,7 @@ namespace strtk
                               std::set<T,Comparator,Allocator>& set,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,set,split_option);
+      return parse_n(range.first,range.second,delimiters,n,set,split_option);
    }
 
    template <typename InputIterator,
@@ -9770,7 +9770,7 @@ namespace strtk
                               std::multiset<T,Comparator,Allocator>& multiset,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,multiset,split_option);
+      return parse_n(range.first,range.second,delimiters,n,multiset,split_option);
    }
 
    template <typename InputIterator,
@@ -9782,7 +9782,7 @@ namespace strtk
                               std::queue<T,Container>& queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,queue,split_option);
    }
 
    template <typename InputIterator,
@@ -9794,7 +9794,7 @@ namespace strtk
                               std::stack<T,Container>& stack,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,stack,split_option);
+      return parse_n(range.first,range.second,delimiters,n,stack,split_option);
    }
 
    template <typename InputIterator,
@@ -9807,7 +9807,7 @@ namespace strtk
                               std::priority_queue<T,Container,Comparator>& priority_queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,priority_queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,priority_queue,split_option);
    }
 
    template <typename T1 , typename T2 , typename T3 , typename  T4,
-- 
2.43.0


From 99ba233ab0340611fa3ecad5f1447aa1d914cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 15/43] fix: parsing into an array did not compile because a
 copied inserter left its counter unbound

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b299620..7eb1c4b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3052,7 +3052,8 @@ namespace strtk
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
-      : pointer_(itr.pointer_)
+      : pointer_(itr.pointer_),
+        insert_count_(itr.insert_count_)
       {}
 
       inline range_to_ptr_type_iterator& operator=(const range_to_ptr_type_iterator& itr)
-- 
2.43.0


From 55f24f4ef951d86ccc09eb3c6c1a13bb8f5cfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 16/43] fix: imatch passes char values above 127 to toupper as
 negative ints

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7eb1c4b..f9df468 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1979,7 +1979,7 @@ namespace strtk
 
    inline bool imatch_char(const char c1, const char c2)
    {
-      return std::toupper(c1) == std::toupper(c2);
+      return std::toupper(static_cast<unsigned char>(c1)) == std::toupper(static_cast<unsigned char>(c2));
    }
 
    template <typename InputIterator>
@@ -1999,7 +1999,7 @@ namespace strtk
       while (end1 != itr1)
       {
          //if (std::toupper(*itr1, std::locale::classic()) != std::toupper(*it2, std::locale::classic()))
-         if (std::toupper(*itr1) != std::toupper(*itr2))
+         if (std::toupper(static_cast<unsigned char>(*itr1)) != std::toupper(static_cast<unsigned char>(*itr2)))
          {
             return false;
          }
-- 
2.43.0


From b07fa9560870314e1ebf25c27b50df51fbae9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 17/43] fix: first_non_repeated_char indexes its table with
 sign-extended characters

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f9df468..5297ac0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4351,7 +4351,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From 9f9056e6a5cce385e0a569943cc78a654658f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 18/43] fix: translation_table indexes its table with
 sign-extended characters

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5297ac0..86afe94 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11815,13 +11815,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From 42ed9a4b38864b418a8d5e7e202daf8458116c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 19/43] fix: copy constructors of hex_to_number_sink and
 base64_to_number_sink name a member that does not exist

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 86afe94..85b59cc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14860,7 +14860,7 @@ namespace strtk
       {}
 
       hex_to_number_sink(const hex_to_number_sink& hns)
-      : valid_(hns.valid),
+      : valid_(hns.valid_),
         t_(hns.t_)
       {}
 
@@ -14962,7 +14962,7 @@ namespace strtk
       {}
 
       base64_to_number_sink(const base64_to_number_sink& bns)
-      : valid_(bns.valid),
+      : valid_(bns.valid_),
         t_(bns.t_)
       {}
 
-- 
2.43.0


From 06a419220b820823d7f01efaa11a8e29e873f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 20/43] fix: sink_type constructed from a container leaves its
 element count without a value

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 85b59cc..5b846c1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15379,7 +15379,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0


From cc320814dffac05832fc2d7eba35f16bc7d7a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 21/43] fix: bloom::filter's copy constructor releases a
 pointer that has no value

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 5b846c1..6d617ea 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20134,6 +20134,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From dafc91e86aace30a4ca26c02ccd80c3bc901440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 22/43] fix: a copied string_condition refers to the string of
 the object it was copied from

---
 strtk.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6d617ea..3ab5855 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19548,11 +19548,21 @@ namespace strtk
 
       typedef const unsigned char* itr_type;
 
+      inline itr_type s_begin() const
+      {
+         return reinterpret_cast<itr_type>(to_ptr(s));
+      }
+
+      inline itr_type s_end() const
+      {
+         return reinterpret_cast<itr_type>(to_ptr(s) + s.size());
+      }
+
       inline bool condition_equal(const itr_type begin, const itr_type end) const
       {
          if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return std::equal(s_begin, s_end, begin);
+            return std::equal(s_begin(), s_end(), begin);
          }
          else
             return false;
@@ -19562,7 +19572,7 @@ namespace strtk
       {
          if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return !std::equal(s_begin, s_end, begin);
+            return !std::equal(s_begin(), s_end(), begin);
          }
          else
             return true;
@@ -19570,14 +19580,14 @@ namespace strtk
 
       inline bool condition_like(const itr_type begin, const itr_type end) const
       {
-         return match(s_begin, s_end, begin, end,(unsigned char)'*', (unsigned char)'?');
+         return match(s_begin(), s_end(), begin, end,(unsigned char)'*', (unsigned char)'?');
       }
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
          if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return strtk::begins_with(s_begin, s_end, begin, end);
+            return strtk::begins_with(s_begin(), s_end(), begin, end);
          }
          else
             return false;
@@ -19587,7 +19597,7 @@ namespace strtk
       {
          if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return strtk::ends_with(s_begin, s_end, begin, end);
+            return strtk::ends_with(s_begin(), s_end(), begin, end);
          }
          else
             return false;
@@ -19597,7 +19607,7 @@ namespace strtk
       {
          if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return (end != std::search(begin, end, s_begin, s_end));
+            return (end != std::search(begin, end, s_begin(), s_end()));
          }
          else
             return false;
@@ -19607,7 +19617,7 @@ namespace strtk
       {
          if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return (end == std::search(begin, end, s_begin, s_end));
+            return (end == std::search(begin, end, s_begin(), s_end()));
          }
          else
             return true;
@@ -19631,8 +19641,6 @@ namespace strtk
       inline explicit string_condition(condition_type cond_type, const std::string& str)
       : cond_type_(cond_type),
         s(str),
-        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
-        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + str.size())),
         condition_method_(0)
       {
          switch (cond_type_)
@@ -19673,8 +19681,6 @@ namespace strtk
 
       condition_type cond_type_;
       std::string s;
-      const unsigned char* s_begin;
-      const unsigned char* s_end;
       condition_method condition_method_;
    };
 
-- 
2.43.0


From 32964f61386ead4080f26a301a4baceb796cd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 23/43] fix: string_condition's begins_with and ends_with only
 accepted the whole string

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3ab5855..0b37405 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19585,7 +19585,7 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::begins_with(s_begin(), s_end(), begin, end);
          }
@@ -19595,7 +19595,7 @@ namespace strtk
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::ends_with(s_begin(), s_end(), begin, end);
          }
-- 
2.43.0


From 7962dcb87ea9eca4e6f6ab6d1252e44ca65a6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 24/43] fix: copying a trie::prefix releases its nodes twice

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 0b37405..6889ba2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19888,6 +19888,9 @@ namespace strtk
 
       private:
 
+         prefix(const prefix&);
+         prefix& operator=(const prefix&);
+
          node_ptr head_;
       };
 
-- 
2.43.0


From 7fefb60e6f4ac2a00af5a5f5dec04fe59ac9bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 25/43] fix: a copied container_adder adds through the object
 it was copied from

---
 strtk.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6889ba2..33b5c52 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -9032,6 +9032,19 @@ namespace strtk
          : container_adder_base_(new(buffer)stack_queue_adder_impl<T,Container,std::stack>(stack))
          {}
 
+         container_adder(const container_adder& ca)
+         : container_adder_base_(reinterpret_cast<container_adder_base*>(buffer))
+         {
+            std::copy(ca.buffer, ca.buffer + sizeof(buffer), buffer);
+         }
+
+         inline container_adder& operator=(const container_adder& ca)
+         {
+            std::copy(ca.buffer, ca.buffer + sizeof(buffer), buffer);
+            container_adder_base_ = reinterpret_cast<container_adder_base*>(buffer);
+            return (*this);
+         }
+
          template <typename InputIterator>
          inline bool add(InputIterator begin, InputIterator end) const
          {
-- 
2.43.0


From 24034d877359479663ef7d4f864100fab6389676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 26/43] fix: copied util::value and util::semantic_action_impl
 objects call through the object they were copied from

---
 strtk.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 33b5c52..01e7dae 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21059,6 +21059,14 @@ namespace strtk
             std::fill_n(function_holder_buffer_, sizeof(function_holder_buffer_), static_cast<unsigned char>(0x00));
          }
 
+         semantic_action_impl(const semantic_action_impl& sa)
+         : function_holder_((0 != sa.function_holder_) ? reinterpret_cast<function_holder_base*>(function_holder_buffer_) : 0)
+         {
+            std::copy(sa.function_holder_buffer_,
+                      sa.function_holder_buffer_ + sizeof(function_holder_buffer_),
+                      function_holder_buffer_);
+         }
+
          template <typename Function>
          inline explicit semantic_action_impl(const Function& f)
          {
@@ -21279,6 +21287,14 @@ namespace strtk
             std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
          }
 
+         value(const value& v)
+         : type_holder_((0 != v.type_holder_) ? reinterpret_cast<type_holder_base*>(type_holder_buffer_) : 0)
+         {
+            std::copy(v.type_holder_buffer_,
+                      v.type_holder_buffer_ + type_holder_buffer_size,
+                      type_holder_buffer_);
+         }
+
          template <typename T>
          inline explicit value(T& t)
          {
-- 
2.43.0


From 1933cece82c64264cf472bd551ed9fb913a3d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 27/43] fix: assigning an empty util::value leaves the old
 target in place

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 01e7dae..d519c64 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21325,6 +21325,8 @@ namespace strtk
                             type_holder_buffer_);
                   type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
                }
+               else
+                  type_holder_ = 0;
             }
             return *this;
          }
-- 
2.43.0


From 1d25b2bba0378d4ccd6c76ce11dc9f19bc65fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 28/43] fix: filter_on_wildcard_match passed what did not match

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d519c64..5b62964 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7696,7 +7696,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7704,7 +7704,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From b7c4bf83c9aa7d6f9335a63e20532fc366c634fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 29/43] fix: filter_on_match compared beyond the end of shorter
 input

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5b62964..cacf00f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7744,7 +7744,9 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (!case_insensitive_ &&
+                 ((*itr).size() == static_cast<std::size_t>(std::distance(range.first,range.second))) &&
+                 std::equal((*itr).begin(), (*itr).end(), range.first))
                )
             {
                if (allow_through_on_match_)
@@ -7769,7 +7771,7 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && ((*itr) == s))
                )
             {
                if (allow_through_on_match_)
-- 
2.43.0


From 4517acee7b9e9c956a3b2c0bfece2722ed5422fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 30/43] fix: filter_on_match let a matched string through when
 told to stop matches

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index cacf00f..58f0f5f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7777,8 +7777,9 @@ namespace strtk
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
-- 
2.43.0


From 25eefd2aa4284c89e541d07fdf1a4cbfda80e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 31/43] fix: inrange accepted a value that compares with
 neither bound

---
 strtk.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 58f0f5f..c5863f6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16396,9 +16396,7 @@ namespace strtk
             T temp;
             if (!strtk::string_to_type_converter(begin, end, temp))
                return false;
-            else if (temp < low_)
-               return false;
-            else if (temp > hi_)
+            else if (!((temp >= low_) && (temp <= hi_)))
                return false;
             (*t_) = temp;
             return true;
-- 
2.43.0


From 11d21c2e9193f219ca49d220be9f3921a3b84e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 32/43] fix: token_grid::join_row left out the last token of
 the last row and looked at the token after the row

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c5863f6..0050a1c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7100,9 +7100,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
@@ -7137,9 +7137,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
-- 
2.43.0


From 5b5a3302aae11358a01aa23066cdcb1cf8732a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 33/43] fix: token_grid::extract_column wrote every value to
 the first position of an output iterator that is not an inserter

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0050a1c..4dfb65f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7564,7 +7564,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token(const range_t& range, OutputIterator out) const
+      inline void process_token(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
          (*out) = string_to_type_converter<output_type>(range.first,range.second);
@@ -7572,7 +7572,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token_checked(const range_t& range, OutputIterator out) const
+      inline void process_token_checked(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
 
-- 
2.43.0


From ccb485c658072e369307ea23b1233e4a029434ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 34/43] fix: token_grid looked outside an empty token and
 turned a lone quote inside out when trimming double quotes

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4dfb65f..eef1e5d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7526,6 +7526,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (1 < std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second)) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From 77f0043cc31f42014a1949a0fc804e3a1385fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 35/43] fix: token_grid::accumulate_column counted rows without
 the column

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index eef1e5d..df7ecd9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7025,12 +7025,13 @@ namespace strtk
                const range_t& range = *(dsv_index_.token_list.begin() + r.first + col);
 
                if (string_to_type_converter(range.first,range.second,current_value))
+               {
                   result += current_value;
+                  ++process_count;
+               }
                else
                   return 0;
             }
-
-            ++process_count;
          }
 
          return process_count;
-- 
2.43.0


From 7083b390468c30ed22f4acf0feed323d04cd5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 36/43] fix: token_grid::sequential_partition joined a
 partition of a single row to the next one

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index df7ecd9..0f7dd90 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7287,17 +7287,15 @@ namespace strtk
          {
             if (p(row_type(i,dsv_index_)))
             {
-               if (r.first != r.second)
+               if (r.first != i)
                {
                   r.second = i;
                   if (!f(*this,r))
                      return false;
                }
 
-               r.first = r.second;
+               r.first = i;
             }
-            else
-               r.second = i;
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From ef8375a0bd17c32aeec91a490bfd92c0a15b6639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 37/43] fix: real numbers with a stray character between
 exponent and suffix were accepted

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0f7dd90..4c90f95 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17567,11 +17567,11 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr++]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { result = result * 10 + (digit); ++itr; } else { digit = 0; return_result = false; break; }
 
                #else
                #define strtk_process_digit \
-               if (strtk_likely((digit = (*itr++ - '0')) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = (*itr - '0')) < 10)) { result = result * 10 + (digit); ++itr; } else { digit = 0; return_result = false; break; }
 
                #endif
 
-- 
2.43.0


From 86212e953cbb67e19b796f0e68bdad5c3099f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 38/43] fix: a zero with a large exponent was converted to
 not-a-number

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4c90f95..dbb46e9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16855,6 +16855,9 @@ namespace strtk
 
          static const int fract10_size = static_cast<int>(sizeof(fract10) / sizeof(double));
 
+         if ((0 == exponent) || (T(0) == d))
+            return d;
+
          const int e = std::abs(exponent);
 
          if (exponent >= std::numeric_limits<T>::min_exponent10)
-- 
2.43.0


From c5e8ad7bee80f975004fbf746502df7266a731c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 39/43] fix: decimal_sink read past the end of texts without a
 fraction and took any character for the decimal point

---
 strtk.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index dbb46e9..ebaaa62 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15205,7 +15205,7 @@ namespace strtk
       template <typename InputIterator>
       inline bool operator()(InputIterator itr, InputIterator end)
       {
-         if (0 == t_)
+         if ((0 == t_) || (end == itr))
             return false;
 
          typedef typename strtk::details::real_type<T>::type real_t;
@@ -15239,7 +15239,13 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (end != itr)
+         {
+            if ('.' != *itr)
+               return false;
+
+            ++itr;
+         }
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
@@ -15259,7 +15265,7 @@ namespace strtk
 
          if (length)
          {
-            d += strtk::details::pow10(f,-length);
+            d += strtk::details::pow10(f,-static_cast<int>(length));
          }
 
          (*t_) = static_cast<T>((negative) ? -d : d);
-- 
2.43.0


From 28a323dc08131dc055b561c8bb674a61e328deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 40/43] fix: exponents beyond the table of powers of ten were
 applied tenfold

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index ebaaa62..8aa83d2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16875,8 +16875,10 @@ namespace strtk
                else
                   return T(d / fract10[e]);
             }
+            else if (exponent > 0)
+               return T((d * fract10[fract10_size - 1]) * std::pow(T(10),e - (fract10_size - 1)));
             else
-               return T(d * std::pow(10.0, 10.0 * exponent));
+               return T((d / fract10[fract10_size - 1]) / std::pow(T(10),e - (fract10_size - 1)));
          }
          else
          {
-- 
2.43.0


From 348e6657084d30ad6ee409b2f0c413156d722438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 41/43] fix: join_if returning the text of a sequence called a
 join that takes no predicate

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8aa83d2..90e45e9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11398,7 +11398,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From 791a91ead3ad9d827761e1b498aef694ef45617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 42/43] fix: interleaving the bits of two strings wrote twice
 as many bytes as its result had room for

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 90e45e9..4d085e5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4951,7 +4951,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(2 * str1.size());
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From 599033f54fa9a1bf1d0d2f7be781af064b3dde03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 43/43] fix: hamming_distance_elementwise never moved on to the
 next element

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4d085e5..fe9fb8a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5198,6 +5198,9 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0

