From c7bbf230ccdaaa5563a8caf1bc2046e49aa80737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 01/18] fix: count recursively decomposed characters correctly

get_decomposed_size followed the mark instead of the base character, so
characters that decompose to four code points were truncated by decompose
and made to_decomposed loop forever.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 8affe78..ab5629a 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -50,7 +50,7 @@ namespace ystring
             while (mark)
             {
                 ++n;
-                std::tie(norm, mark) = find_decomposed(mark);
+                std::tie(norm, mark) = find_decomposed(norm);
             }
             return n;
         }
-- 
2.43.0


From 0740efd5edfd53b51c297f323491d87f914d48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 02/18] fix: compare complete keys within the bounds of
 TO_COMPOSED

find_composed compared with the end of the wrong table, and truncated the
key to 32 bits so that no character from U+1000 and upwards was composed.
---
 src/Ystring/Normalize.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index ab5629a..8e61f7d 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -32,13 +32,13 @@ namespace ystring
 
         char32_t find_composed(char32_t ch, char32_t mark)
         {
-            if (mark < 0x300)
+            if (mark < 0x300 || mark > 0xFFFFFu)
                 return 0;
             auto key = (uint64_t(ch) << 20u) | uint64_t(mark);
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_DECOMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || (*it >> 20u) != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From 307e08ed675a4fd1b2c6036567f8f547f2f7c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 03/18] fix: keep the character that follows a composed one in
 to_composed

---
 src/Ystring/Normalize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 8e61f7d..ccc6e1a 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -136,6 +136,7 @@ namespace ystring
                 }
                 auto out = std::back_inserter(result);
                 encode_utf8(ch, out);
+                prev = it;
             }
             ch = mark;
         }
-- 
2.43.0


From 2aadeb858963d807aeb74b11ea74ca95fe890a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 04/18] fix: do not accept escape sequences that extend past
 the end of the string

---
 src/Ystring/Unescape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 0a2ebdf..29c9772 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -28,7 +28,8 @@ namespace ystring
         size_t find_first_where(std::string_view str, size_t start, size_t end,
                                 Pred pred)
         {
-            for (size_t i = start; i < std::min(str.size(), end); ++i)
+            end = std::min(str.size(), end);
+            for (size_t i = start; i < end; ++i)
             {
                 if (pred(str[i]))
                     return i;
-- 
2.43.0


From 47fd32566793c5f0998ed64282c49acb5c32fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 05/18] fix: reject hexadecimal escape sequences whose value
 overflows

The value was left uninitialised when it does not fit in 32 bits.
---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 29c9772..bb76af0 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -61,7 +61,7 @@ namespace ystring
             auto res = std::from_chars(str.data() + 2,
                                        str.data() + str.size(),
                                        value, 16);
-            if (res.ptr == str.data() + 2)
+            if (res.ptr == str.data() + 2 || res.ec != std::errc())
             {
                 YSTRING_THROW("Cannot parse escaped char: "
                               + std::string(str));
-- 
2.43.0


From f297785fd3d3d9611f931dc499b33789d7043301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 06/18] fix: do not reject valid escape sequences after a high
 surrogate

Whatever followed the surrogate was cut off after six bytes and then
searched for escape sequences, valid ones cut short made unescape throw.
---
 src/Ystring/Unescape.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index bb76af0..940a1fb 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -97,11 +97,11 @@ namespace ystring
 
             // Look for the second part of a surrogate pair.
             auto str2 = str.substr(sub.end(), 6);
-            auto sub2 = find_first_escaped_char(str2);
-            if (!sub2 || sub2.offset != 0 || sub2.length != 6)
+            if (str2.substr(0, 2) != "\\u")
                 return {ch, sub};
 
-            if (str[sub.end() + 1] != 'u')
+            auto sub2 = find_first_escaped_char(str2);
+            if (sub2.length != 6)
                 return {ch, sub};
 
             auto ch2 = parse_escaped_hex_char(str2);
-- 
2.43.0


From 5dbc731729054885e7d311652d294ebcf4034ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 07/18] fix: return the length of substrings whose indexes have
 different signs

---
 src/Ystring/AlgorithmUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 56da7d8..a96793e 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -65,7 +65,7 @@ namespace ystring
         {
             auto s = get_capped_char_pos(str, start_index);
             auto e = get_capped_char_pos(str.substr(s), end_index);
-            return {s, e - s};
+            return {s, e};
         }
         else
         {
@@ -103,7 +103,7 @@ namespace ystring
         {
             auto s = get_capped_codepoint_pos(str, start_index);
             auto e = get_capped_codepoint_pos(str, end_index);
-            return {s, std::max(s, e)};
+            return {s, e > s ? e - s : 0};
         }
     }
 
-- 
2.43.0


From 784cf3ba4e05145d9fd5fdc095948ddea9f09343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 08/18] fix: return an empty range when the negative end index
 does not follow the start index

---
 src/Ystring/AlgorithmUtilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index a96793e..66990fb 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -58,6 +58,8 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_char_pos(str, end_index);
+            if (start_index == end_index)
+                return {e, 0};
             auto s = get_capped_char_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
@@ -90,6 +92,8 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_codepoint_pos(str, end_index);
+            if (start_index == end_index)
+                return {e, 0};
             auto s = get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
-- 
2.43.0


From 531042bab501b3301b4ccdbcf2cdd500d94c3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 09/18] fix: do not loop forever when replacing an empty string

---
 src/Ystring/Algorithms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 7e310e6..1312191 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -355,6 +355,9 @@ namespace ystring
                         std::string_view to,
                         ptrdiff_t max_replacements)
     {
+        if (from.empty())
+            return std::string(str);
+
         std::string result;
         if (max_replacements >= 0)
         {
-- 
2.43.0


From 8b864ff4742f957c72c02ef40b62624d72c0a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 10/18] fix: avoid signed overflow when indexes or limits are
 PTRDIFF_MIN

---
 src/Ystring/Algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 1312191..a12fc0e 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -255,7 +255,7 @@ namespace ystring
 
     size_t get_codepoint_pos(std::string_view str, ptrdiff_t pos)
     {
-        if (std::abs(pos) > ptrdiff_t(str.size()))
+        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))
             return std::string_view::npos;
         if (pos >= 0)
         {
@@ -377,7 +377,7 @@ namespace ystring
         else
         {
             size_t prev = 0;
-            auto matches = find_last_n(str, from, -max_replacements);
+            auto matches = find_last_n(str, from, size_t(0) - size_t(max_replacements));
             for (auto it = matches.rbegin(); it != matches.rend(); ++it)
             {
                 if (it->offset != prev)
-- 
2.43.0


From 913e82c2d6e1378f01e03102ee0a2adad65b96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 11/18] fix: avoid too large shifts when decoding many
 continuation bytes backwards

---
 include/Ystring/DecodeUtf8.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 412db80..300fdee 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -100,7 +100,8 @@ namespace ystring
                     ++it;
                 return INVALID_CHAR;
             }
-            result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
+            if (n < 3)
+                result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
             ++n;
             --it;
         }
-- 
2.43.0


From 6fcb5c1c569f8d0835e5d98be7975eaa43862919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 12/18] fix: values above the last code point are unassigned

Their upper bits were shifted out, so they got the class of other code points.
---
 src/Ystring/CharClass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ystring/CharClass.cpp b/src/Ystring/CharClass.cpp
index f656947..22b1b9c 100644
--- a/src/Ystring/CharClass.cpp
+++ b/src/Ystring/CharClass.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <iterator>
 #include "CharClassTables.hpp"
+#include "Ystring/CodepointConstants.hpp"
 
 // What are the values in the COMPLETE_CHAR_CLASSES table?
 //
@@ -62,6 +63,8 @@ namespace ystring
     {
         if (code_point < 128)
             return CharClass_t(1u << ASCII_CHAR_CLASSES[code_point]);
+        if (code_point > UNICODE_MAX)
+            return CharClass::UNASSIGNED;
         char32_t key = code_point << CODE_POINT_SHIFT;
         auto it = std::lower_bound(
             std::begin(COMPLETE_CHAR_CLASSES),
-- 
2.43.0


From d6eb98a2127b4f8ed80e0b67113f7bdbfac21508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 13/18] fix: TokenIterator::token returned more than the token

---
 include/Ystring/TokenIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index 0d211df..b1ea289 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -52,7 +52,7 @@ namespace ystring
         {
             if (!m_token)
                 return {};
-            return m_str.substr(m_token.start(), m_token.end());
+            return m_str.substr(m_token.start(), m_token.length);
         }
 
         [[nodiscard]] std::string_view remainder() const
-- 
2.43.0


From 028fcc54fe7f95e17686e3e971e0ed28da3fba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 14/18] fix: splitting no times returns the whole string
 instead of nothing

---
 include/Ystring/Algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 12eb689..64fa11d 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -520,7 +520,7 @@ namespace ystring
             if (!params.ignore_empty || !part.empty())
                 result.push_back(part);
         }
-        if (it)
+        if (it || params.max_splits == 0)
         {
             auto remainder = it.remainder();
             if (!params.ignore_empty || !remainder.empty())
-- 
2.43.0


From b36029b9dbcf436092f095f9007274b1c566ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 15/18] fix: case-insensitive sets contain every code point in
 their ranges

---
 src/Ystring/Char32Set.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index d033793..473bb9e 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -44,6 +44,8 @@ namespace ystring
         return std::any_of(ranges.begin(), ranges.end(),
                            [&](auto& r)
                            {
+                               if (r.first <= cp && cp <= r.second)
+                                   return true;
                                if (r.first == r.second)
                                    return case_insensitive_equal(cp, r.first);
                                return !case_insensitive_less(cp, r.first)
-- 
2.43.0


From a2a30365bc426620efd83c4a2b48f508f2b312ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 16/18] fix: assign the letter class to every ideograph in the
 First/Last ranges

The generator only knew the final code points of such ranges in old Unicode
versions, so 103569 code points in UnicodeData 16.0 became unassigned.
---
 src/Ystring/CharClassTables.hpp                    | 14 +++++++-------
 .../make_char_class_file.py                        |  6 +-----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/Ystring/CharClassTables.hpp b/src/Ystring/CharClassTables.hpp
index 973d811..9652555 100644
--- a/src/Ystring/CharClassTables.hpp
+++ b/src/Ystring/CharClassTables.hpp
@@ -249,7 +249,7 @@ namespace ystring
         0x018CF816, 0x018DF805, 0x018F2816, 0x018F7BD6, 0x018FF805,
         0x0190FADE, 0x0191480B, 0x01923816, 0x01928176, 0x0192F80B,
         0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x01A002C5,
-        0x026DFBC5, 0x027002C5, 0x04FFF01E, 0x0500A8A4, 0x05246005,
+        0x026DF805, 0x027002C5, 0x04FFF005, 0x0500A8A4, 0x05246005,
         0x0524781E, 0x05263016, 0x0526781E, 0x0527B805, 0x0527E804,
         0x0527F812, 0x053060A4, 0x05307812, 0x0530F805, 0x05314809,
         0x05315805, 0x0531F81E, 0x05336C02, 0x053378A6, 0x05339912,
@@ -426,8 +426,8 @@ namespace ystring
         0x0B71F81E, 0x0B72F801, 0x0B73F802, 0x0B74B00B, 0x0B74D012,
         0x0B77F81E, 0x0B7A5005, 0x0B7A7BC6, 0x0B7A8005, 0x0B7C3807,
         0x0B7C701E, 0x0B7C9006, 0x0B7CF804, 0x0B7EF81E, 0x0B7F1092,
-        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FBBC5,
-        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C6843C5,
+        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FB805,
+        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C684005,
         0x0D7F781E, 0x0D7FA09E, 0x0D7FE09E, 0x0D7FF89E, 0x0D891005,
         0x0D8993C5, 0x0D8A781E, 0x0D8A9005, 0x0D8AABC5, 0x0D8B181E,
         0x0D8B3805, 0x0D8B781E, 0x0D97D805, 0x0DDFF81E, 0x0DE35005,
@@ -491,10 +491,10 @@ namespace ystring
         0x0FD36816, 0x0FD3781E, 0x0FD3E016, 0x0FD3F81E, 0x0FD44816,
         0x0FD4701E, 0x0FD63016, 0x0FD6681E, 0x0FD6E016, 0x0FD6F01E,
         0x0FD74816, 0x0FD7781E, 0x0FD7C016, 0x0FD7F81E, 0x0FDC9ADE,
-        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536FBC5, 0x153803C5,
-        0x15B9CBC5, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750BC5,
-        0x167583C5, 0x175F03C5, 0x175F83C5, 0x1772EBC5, 0x17BFF81E,
-        0x17D0E805, 0x180003C5, 0x189A53C5, 0x189A83C5, 0x191D7BC5,
+        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536F805, 0x153803C5,
+        0x15B9C805, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750805,
+        0x167583C5, 0x175F0005, 0x175F83C5, 0x1772E805, 0x17BFF81E,
+        0x17D0E805, 0x180003C5, 0x189A5005, 0x189A83C5, 0x191D7805,
         0x70000BDB, 0x7000F81E, 0x7003F81B, 0x7007F81E, 0x700F7806,
         0x77FFF81E, 0x7FFFE81D, 0x7FFFF81E, 0x87FFE81D
     };
diff --git a/tools/unicode_character_tables/make_char_class_file.py b/tools/unicode_character_tables/make_char_class_file.py
index adb8c1a..0c83003 100644
--- a/tools/unicode_character_tables/make_char_class_file.py
+++ b/tools/unicode_character_tables/make_char_class_file.py
@@ -127,10 +127,6 @@ ClassNames = {
     "XLu":  "Alternating upper and lower case, ends on upper"
 }
 
-KnownRanges = {0x4DB5, 0x9FCC, 0xD7A3, 0xDB7F, 0xDBFF, 0xDFFF, 0xF8FF,
-               0x2A6D6, 0x2B734, 0x2B81D, 0xFFFFD, 0x10FFFD}
-
-
 Template = """\
 //****************************************************************************
 // Copyright © [[[year]]] Jan Erik Breimo. All rights reserved.
@@ -175,7 +171,7 @@ def get_class_ranges(file_name):
         parts = line.split(";")
         char_class = parts[2]
         char_id = int(parts[0], 16)
-        if (char_id == range_end + 1 or char_id in KnownRanges) and char_class == range_class:
+        if (char_id == range_end + 1 or parts[1].endswith(", Last>")) and char_class == range_class:
             range_end = char_id
         else:
             if range_class:
-- 
2.43.0


From 13435204436f4a9a75a32f363c6fc0109c8a2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 17/18] fix: do not read past the end of the whitespace and
 newline tables

---
 include/Ystring/Algorithms.hpp | 4 ++--
 src/Ystring/Algorithms.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 64fa11d..ab89701 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -26,8 +26,8 @@
 
 namespace ystring
 {
-    constexpr char32_t ASCII_WHITESPACE[] = {' ', '\t', '\n', '\r', '\f', '\v'};
-    constexpr char32_t COMMON_WHITESPACE[] = {' ', '\t', '\n', '\r'};
+    constexpr std::u32string_view ASCII_WHITESPACE = U" \t\n\r\f\v";
+    constexpr std::u32string_view COMMON_WHITESPACE = U" \t\n\r";
 
     inline std::string_view to_string_view(std::u8string_view str)
     {
diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index a12fc0e..5420e2f 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -24,7 +24,8 @@ namespace ystring
             '\r',
             NEXT_LINE,
             LINE_SEPARATOR,
-            PARAGRAPH_SEPARATOR
+            PARAGRAPH_SEPARATOR,
+            0 // Terminates the array when it is used as a string.
         };
     }
 
-- 
2.43.0


From 1b78bb46f12464810cebfc0ef958ddd1fc54ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 18/18] fix: case-insensitive match of consecutive code points
 in a CodepointSet

add_codepoint merged consecutive code points into a range even when their
upper case versions are not consecutive, in which case
case_insensitive_contains compared with the wrong interval: after adding
'`' and 'a' it did not match 'A', and after 'z' and '{' it matched '_'.
---
 src/Ystring/Char32Set.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index 473bb9e..3ef2a9c 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -6,6 +6,7 @@
 // License text is included with the source distribution.
 //****************************************************************************
 #include "Ystring/CodepointSet.hpp"
+#include "Ystring/ConvertCase.hpp"
 #include "Ystring/Utf32.hpp"
 
 #include <ostream>
@@ -18,9 +19,23 @@ namespace ystring
         ranges.emplace_back(first, last);
     }
 
+    namespace
+    {
+        /// Returns true if adding @a cp to the end of @a range means that
+        /// the upper case versions of its end points also extend from
+        /// including everything that they did, to including that of @a cp
+        /// and nothing else.
+        bool can_append(const CodepointRange& range, char32_t cp)
+        {
+            return range.second + 1 == cp
+                   && to_upper(range.second) + 1 == to_upper(cp)
+                   && to_upper(range.first) <= to_upper(range.second);
+        }
+    }
+
     void CodepointSet::add_codepoint(char32_t cp)
     {
-        if (!ranges.empty() && ranges.back().second + 1 == cp)
+        if (!ranges.empty() && can_append(ranges.back(), cp))
             ranges.back().second = cp;
         else
             add_range(cp, cp);
-- 
2.43.0

