From 150785a97dfdb137f852c716aa34123535cccda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 01/28] fix: is_high_surrogate accepts exactly the high
 surrogates U+D800..U+DBFF

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..78580aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -86,7 +86,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From 4abebef7ed0a044afeda01247c501ee3e79adbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/28] fix: decoder<char32_t>::from_codepoint reports 4
 processed bytes for a 4-byte code point

---
 include/papilio/utf/codepoint.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..e135fdd 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
-- 
2.43.0


From e53a278a971b90cd00fcda51d8e46021b7347a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/28] fix: utf::strlen(ptr, max_chars) for UTF-8 does not
 read past the limit

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 78580aa..6efa0d0 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -122,7 +122,7 @@ constexpr std::size_t strlen(
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
-- 
2.43.0


From 4f0bbd692f4a0df85f0fac5692f07d5377e60e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 04/28] fix: utf::strlen(ptr, max_chars) for UTF-32 returns the
 limit when there is no NUL before it

---
 include/papilio/utf/stralgo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 6efa0d0..f490b44 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -314,6 +314,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
-- 
2.43.0


From b53b7cc451a6f347e2ac44997ff88dc675440e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 05/28] fix: reverse index_offset of an empty UTF-32 string is
 npos

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f490b44..8a8802b 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -474,7 +474,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From 78aae3a4ec07ed8ec411896e77bd6376e5b3c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 06/28] fix: utf::strlen(ptr, max_chars) for UTF-16 accepts BMP
 characters under the stop and exception policies

---
 include/papilio/utf/stralgo.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 8a8802b..1fd302d 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -273,7 +273,14 @@ constexpr std::size_t strlen(
             }
             else
             {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
+                if(PAPILIO_NS utf::is_low_surrogate(ch) != prev_is_high) [[unlikely]]
+                {
+                    // Invalid surrogate
+                    if constexpr(OnInvalid == strlen_behavior::stop)
+                        return result;
+                    else
+                        throw invalid_surrogate(ch);
+                }
 
                 prev_is_high = false;
                 ++result;
-- 
2.43.0


From 6d9826392b6f4ae2ab1485bff142fce0e0f2ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 07/28] fix: substr(index_range) counts negative indices
 without negating them

Negating the smallest index_type overflows; the loop then did not run and
the end of the string was used instead of reporting the index as out of range.
---
 include/papilio/utf/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..b7b0462 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -323,12 +323,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = 0; i > idx; --i)
                 {
                     if(it == sentinel)
                     {
-- 
2.43.0


From b2bf862627d654b8917cd8ffce7c35f4c7e8af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 08/28] fix: contains() of an empty string is true for an empty
 string, too

---
 include/papilio/utf/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index b7b0462..ba4a04d 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -528,7 +528,7 @@ public:
     [[nodiscard]]
     constexpr bool contains(basic_string_ref str) const noexcept
     {
-        return this->find(str) != this->cend();
+        return str.empty() || this->find(str) != this->cend();
     }
 
     using my_base::starts_with;
@@ -1155,7 +1155,7 @@ public:
     [[nodiscard]]
     constexpr bool contains(string_view_type str) const noexcept
     {
-        return find(str) != this->cend();
+        return str.empty() || find(str) != this->cend();
     }
 
     [[nodiscard]]
-- 
2.43.0


From cbb8d36a091115d275eecf0b21b30d6d99e5c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 09/28] fix: optional_unique_ptr<T[]> owns what it takes from a
 unique_ptr

---
 include/papilio/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..04785c4 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -369,7 +369,7 @@ public:
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
-- 
2.43.0


From c7c5e0d3d1ff3ab40bdb08120f0ba7c33b241677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 10/28] fix: an argument index too large for size_t is out of
 range instead of wrapping around

---
 include/papilio/core.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..64b0edf 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4095,8 +4095,10 @@ private:
                 if(!utf::is_digit(ch))
                     break;
 
-                idx *= 10;
-                idx += static_cast<std::size_t>(ch - U'0');
+                // An index that is too large stays too large instead of wrapping around
+                constexpr std::size_t max_idx = static_cast<std::size_t>(-1);
+                const std::size_t digit = static_cast<std::size_t>(ch - U'0');
+                idx = idx > (max_idx - digit) / 10 ? max_idx : idx * 10 + digit;
                 ++start;
             }
 
-- 
2.43.0


From fc6bb6e0bf5579f3d3d214a8176a0f41b1a3cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 11/28] fix: default alignment of code points with a width

codepoint_formatter left the default alignment in place, so fill_size() ran into
PAPILIO_UNREACHABLE for e.g. "{:5}" with a character. Characters are aligned
to the left by default, as in std::format.
---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 64b0edf..f582c55 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5101,6 +5101,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From 2db01995808ba3e20355cbdd386460b3ed1db7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 12/28] fix: reject integers that are no code point for the c
 type

Negative values passed the range check and were converted to huge code points,
and so did positive values above U+10FFFF.
---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f582c55..ca0fbe1 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5543,7 +5543,7 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFF))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From 479f15b9ccaa9b8e2e47552b05a4ed46b87a552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 13/28] fix: an index range may start at zero

---
 include/papilio/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..6de35d3 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= 0);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From 5f5a79b419276fe8183995bb55bc94211024c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 14/28] fix: a slice that starts before the first element is
 clamped to the range

---
 include/papilio/accessor/ranges.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..6500f3c 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -94,6 +94,9 @@ struct contiguous_range_accessor
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
         else if(std::cmp_greater(s.second, sz))
-- 
2.43.0


From 05c0faecc89f2ceaf6dedadef8c6d2dd6616d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:08 +0000
Subject: [PATCH 15/28] fix: value of an invalid byte in escaped output

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ca0fbe1..6cc4be0 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2530,7 +2530,7 @@ private:
             }
             else
             {
-                append_hex_digits(ctx, str[i], false);
+                append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
                 ++i;
             }
         }
-- 
2.43.0


From 5a20d3a3b1d8b4c8bbf22469b01ac95198ad5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:08 +0000
Subject: [PATCH 16/28] fix: keep the character behind an unpaired high
 surrogate in escaped output

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6cc4be0..6c9c591 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2558,13 +2558,13 @@ private:
                 else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
-- 
2.43.0


From 33570a8252de87184e8c6012ce8c47d27d6669d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:15 +0000
Subject: [PATCH 17/28] fix: characters behind a truncated sequence are no part
 of it in escaped output

---
 include/papilio/core.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6c9c591..0f67102 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2484,11 +2484,13 @@ private:
                 std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
                 if(i + size_bytes > str.size())
                 {
-                    for(std::size_t j = i; j < str.size(); ++j)
+                    do
                     {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
-                    }
-                    return;
+                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
+                        ++i;
+                    } while(i < str.size() && PAPILIO_NS utf::is_trailing_byte(str[i]));
+
+                    continue;
                 }
 
                 if(has_esc_seq<true, false>(str[i]))
-- 
2.43.0


From 63767dfcec0e079c32d8805ba0f127d56216d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:30 +0000
Subject: [PATCH 18/28] fix: escaped output of bytes that never occur in UTF-8

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 0f67102..b37e2b7 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2479,7 +2479,8 @@ private:
         std::size_t i = 0;
         while(i < str.size())
         {
-            if(PAPILIO_NS utf::is_leading_byte(str[i]))
+            // 0xF8 - 0xFF never occur in UTF-8
+            if(PAPILIO_NS utf::is_leading_byte(str[i]) && static_cast<std::uint8_t>(str[i]) < 0xF8)
             {
                 std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
                 if(i + size_bytes > str.size())
-- 
2.43.0


From 0610b235ed90dcd85775871d51773d50f19c3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:50 +0000
Subject: [PATCH 19/28] fix: fixed_vector(count, value) leaked its elements
 when count exceeds the capacity

---
 include/papilio/container.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..5e17316 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -923,6 +923,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From 4a2154f4353c1b923b838f2ad077d8acb1123a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:50 +0000
Subject: [PATCH 20/28] fix: fixed_vector::emplace inserted a moved-from value
 when its argument is an element behind the position

---
 include/papilio/container.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 5e17316..ffab500 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1077,6 +1077,9 @@ public:
             throw_length_error();
         }
 
+        // The arguments may refer to an element that is about to be moved
+        value_type tmp(std::forward<Args>(args)...);
+
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1087,7 +1090,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 4e9afb10a78c8140b4e31200da96e986da045531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:20 +0000
Subject: [PATCH 21/28] fix: fixed_flat_map::find compared the element past the
 end when every key is less

---
 include/papilio/container.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index ffab500..b784b03 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1382,6 +1382,8 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
+        if(it == end())
+            return it;
         return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
@@ -1389,6 +1391,8 @@ public:
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
+        if(it == end())
+            return it;
         return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
@@ -1396,6 +1400,8 @@ public:
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
+        if(it == end())
+            return it;
         return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
@@ -1403,6 +1409,8 @@ public:
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
+        if(it == end())
+            return it;
         return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
-- 
2.43.0


From 4ac3d922a977950a592210f0fe2ecf813e8c6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:20 +0000
Subject: [PATCH 22/28] fix: fixed_flat_map::try_emplace only compiled with
 exactly one argument for the value

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index b784b03..b40a393 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1369,7 +1369,7 @@ public:
             pos,
             std::piecewise_construct,
             std::forward_as_tuple(k),
-            std::forward_as_tuple(std::forward<Args>(args))...
+            std::forward_as_tuple(std::forward<Args>(args)...)
         );
         return std::make_pair(
             pos, true
-- 
2.43.0


From 3c68f2557b88252218f8773d244c33cb8e2d6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:40 +0000
Subject: [PATCH 23/28] fix: small_vector could not be copied, nor asked for
 its allocator (get_alloc was not const)

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index b40a393..8369307 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From cb53fb9917423d0a58b5450908258e6f967f071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:40 +0000
Subject: [PATCH 24/28] fix: swap(small_vector&, small_vector&) did not compile
 (its noexcept depended on itself)

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 8369307..e649422 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -537,7 +537,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 37dc3d10543ac027346871075c44d9f788cb8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:30 +0000
Subject: [PATCH 25/28] fix: small_vector::append_range reserved room for the
 new elements only and wrote past its storage

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index e649422..ea8503a 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -858,7 +858,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 191aa6cf0cc8add3e62aa768a226ea0c0ef83015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:31 +0000
Subject: [PATCH 26/28] fix: small_vector::push_back read its argument from
 freed memory when it is an element of a full vector

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index ea8503a..bc6a1bb 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,11 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // the arguments may refer to an element of this vector
+            value_type tmp(std::forward<Args>(args)...);
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
-- 
2.43.0


From addaf761ed60e9671d101ceaf3485b143a467c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:31 +0000
Subject: [PATCH 27/28] fix: small_vector::insert inserted a moved-from or
 freed value when its argument is an element of the vector

---
 include/papilio/container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index bc6a1bb..7f7171a 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -634,14 +634,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // the arguments may refer to an element of this vector
+        value_type tmp(std::forward<Args>(args)...);
+        reserve(this->size() + 1);
+
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -649,7 +651,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From 88b30e20c68bffc269ceefd42286855d8b39c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:31 +0000
Subject: [PATCH 28/28] fix: small_vector::resize copied a freed element when
 its value is an element of a vector that grows

---
 include/papilio/container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 7f7171a..a00d88d 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -499,9 +499,10 @@ public:
         }
         else if(count > this->size())
         {
+            value_type tmp(val); // the value may be an element of this vector
             reserve(count);
             while(this->size() != count)
-                emplace_back_impl(val);
+                emplace_back_impl(tmp);
         }
     }
 
-- 
2.43.0

