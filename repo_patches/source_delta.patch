From 023ead04162193610357e2d98b6e57f79874de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 01/27] fix: toUtf8 from UTF-16 rejects an unpaired second-half
 surrogate

---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..e093c65 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -503,6 +503,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From db82198d4ba6d6698577bd6f4ce0de88e01299ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 02/27] fix: isUtf16 applies the predicate to the decoded
 character, not to its first half

---
 source/string.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index e093c65..a4857dd 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -392,8 +392,10 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
             {
                 return false;
             }
+            // the predicate has to see the whole character
+            c = rawDecodeUtf16(*(p - 1), c1);
             // Could make this function call but it is unnecessary
-            // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
+            // charFlag = getCharEncodableRangeFlags(c);
             charFlag = k21BitUnicodeFlags;
         }
         else
-- 
2.43.0


From 44ef9ee90676e8c79bb9f7569aca38b9e4d12673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 03/27] fix: values above 10FFFF do not fit in UTF-16

---
 source/string_internal.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..e800ca0 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,9 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +173,7 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        return getUnicodeEncodableRangeFlag(c) != kNoFlag ? k21BitUnicodeFlags : k21BitFlags;
     }
     else
     {
-- 
2.43.0


From 35070fbf7b32ddaf3a16fb039e4d04ab0a0354b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 04/27] fix: unicodeLength of a lone incomplete character is 0,
 not UINT_MAX

---
 source/string.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index a4857dd..95c00b9 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -810,7 +810,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            return (*p == 0 && r > 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -883,7 +883,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         auto c1 = p[1];
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return r > 0 ? (r - 1) : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From d64ea4a1079cdef00db7947cbceebbe058cd89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 05/27] fix: unicodeLength of a null UTF-16 or UCS-4 pointer is
 0

---
 source/string.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 95c00b9..6083ac6 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -852,6 +852,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -931,6 +936,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From b861472e1e77592d62039411595c063dbca8d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 06/27] fix: length-terminated unicodeLength of UTF-16 reads
 nothing past its length

---
 source/string.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/string.cxx b/source/string.cxx
index 6083ac6..8e957fd 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -885,7 +885,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
             return r > 0 ? (r - 1) : 0;
-- 
2.43.0


From 890672451dea7de379a45821f963bb28a772963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 07/27] fix: join keeps a null delimiter

---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..b9cfbcb 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.push_back(delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From b922fa76a391f542678e69236c4243b5d2794a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 08/27] fix: toUcs4 of a null wchar_t* and toWstring of a null
 char32_t* are empty

---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..b16e2e7 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From 6c8b7e9165dae81ef3becfa2102e2915f1dd0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:46 +0000
Subject: [PATCH 09/27] fix: an incomplete out-of-order second half at
 end-of-string is invalid UTF-8

---
 source/string_decode_utf8.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/string_decode_utf8.cxx b/source/string_decode_utf8.cxx
index a0a23d7..1745dd7 100644
--- a/source/string_decode_utf8.cxx
+++ b/source/string_decode_utf8.cxx
@@ -108,6 +108,8 @@ char32_t decodeUtf8
         // 3-byte, next 2 must be A0..BF range
         auto uc1 = static_cast<unsigned char>(*++p); if (uc1 == 0) { return 0; }
         if (uc1 < 0x80 || uc1 > 0xbf) { p = nullptr; return 0; }
+        // ED B0..BF can only be an out-of-order second half, even if incomplete
+        if (uc == 0xed && uc1 >= 0xb0) { p = nullptr; return 0; }
         auto uc2 = static_cast<unsigned char>(*++p); if (uc2 == 0) { return 0; }
         if (uc2 < 0x80 || uc2 > 0xbf) { p = nullptr; return 0; }
         char32_t w = rawDecodeUtf8(uc, uc1, uc2);
-- 
2.43.0


From 9d4c1f81faddd46e379f1ca6f869646be5396000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:46 +0000
Subject: [PATCH 10/27] fix: length-terminated UTF-8 scans look for UTF-16
 halves in the bytes they have

---
 source/string.cxx | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 8e957fd..fe1abdb 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -161,8 +161,8 @@ int sequenceSizeCharStarts
 // Utility function to decide if a character is the first half of a UTF-16
 // character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isFirstHalfUtf16
 
@@ -171,18 +171,15 @@ inline bool isFirstHalfUtf16AsUtf8
     const char*         p       // I - points to current non-null character
 )
 {
-    return isFirstHalfUtf16(rawDecodeUtf8(
-                static_cast<unsigned char>(p[0]),
-                static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+    return static_cast<unsigned char>(p[0]) == 0xed && (p[1] & 0xf0) == 0xa0;
 }
 
 //=========================================================================
 // Utility function to decide if a to-be-decoded character must be teh second
 // half of a UTF-16 character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -191,10 +188,7 @@ inline bool isSecondHalfUtf16AsUtf8
     const char*         p       // I/O - points to current non-null character
 )
 {
-    return isSecondHalfUtf16(rawDecodeUtf8(
-                static_cast<unsigned char>(p[0]),
-                static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+    return static_cast<unsigned char>(p[0]) == 0xed && (p[1] & 0xf0) == 0xb0;
 }
 
 //=========================================================================
-- 
2.43.0


From 8175c1158a529eb0ec8bd9509277256346867da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:46 +0000
Subject: [PATCH 11/27] fix: length-terminated UTF-8 scans reject malformed
 bytes at the end

---
 source/string.cxx | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index fe1abdb..6276acc 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -191,6 +191,38 @@ inline bool isSecondHalfUtf16AsUtf8
     return static_cast<unsigned char>(p[0]) == 0xed && (p[1] & 0xf0) == 0xb0;
 }
 
+//=========================================================================
+// Utility function to decide if the bytes left at the end of a length-
+// terminated string are the start of one more UTF-8 character.
+//
+// Note: Call only if the character at p needs more than length bytes
+//
+// Returns true if p points to a first byte and the rest belong to it
+
+bool isIncompleteUtf8
+(
+    const char*         p,      // I - points to current non-null character
+    unsigned int        length  // I - how many bytes are left
+)
+{
+    int seqStarts = sequenceSizeCharStarts(p);
+    if (seqStarts < 2)
+    {
+        return false;
+    }
+    for (unsigned int i = 1; i < length; ++i)
+    {
+        auto uc = static_cast<unsigned char>(p[i]);
+        // the 4th byte of "3" long sequences starts the second half
+        bool starts = (seqStarts == 3 && i == 3);
+        if (uc < (starts ? 0xe0 : 0x80) || uc > (starts ? 0xef : 0xbf))
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -259,7 +291,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isIncompleteUtf8(p, lengthLeft);
             }
         }
 
@@ -787,7 +819,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isIncompleteUtf8(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
-- 
2.43.0


From 84b791e168d57b741a1e0d8eb3046e02af4adb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:22 +0000
Subject: [PATCH 12/27] fix: a predicate that requires and excludes the same
 property matches nothing

---
 source/encoding_check_predicate.cxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..42303ca 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -55,6 +55,23 @@ namespace {
 EncodingTypeFlags encodingTypeToEncodingFlag[kFirstInvalidEncoding] =
     { kNoneFlag, kIsAssignedFlag, kIsPrivateFlag, kIsControlFlag, kIsWhiteSpaceFlag };
 
+// a value bit that is never in any mask: no character can match
+const uint32_t kContradictionFlag = 0x80000000;
+
+///////////////////////////////////////////////////////////////////////////
+// Local Functions
+
+//=========================================================================
+// If two conditions require opposite results of the same check, no character
+// satisfies both.
+//
+// Returns kContradictionFlag if so, 0 otherwise
+
+inline uint32_t contradiction(uint32_t mask1, uint32_t value1, uint32_t mask2, uint32_t value2)
+{
+    return ((value1 ^ value2) & mask1 & mask2) != 0 ? kContradictionFlag : 0;
+}
+
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -89,7 +106,7 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
-    m_value |= other.m_value;
+    m_value |= other.m_value | contradiction(m_mask, m_value, other.m_mask, other.m_value);
     m_mask |= other.m_mask;
     return *this;
 }
@@ -103,7 +120,7 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
-    m_value |= other.m_value;
+    m_value |= other.m_value | contradiction(m_mask, m_value, other.m_mask, other.m_value);
     m_mask |= other.m_mask;
     return *this;
 }
-- 
2.43.0


From 909efbe2b7dc6c56498d0241476d39e5f7b35efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 13/27] fix: toLower leaves the multiplication sign U+00D7
 alone

---
 source/bits10/char_to_lower.cxx | 6 +++---
 source/bits11/char_to_lower.cxx | 6 +++---
 source/bits12/char_to_lower.cxx | 6 +++---
 source/bits13/char_to_lower.cxx | 6 +++---
 source/bits14/char_to_lower.cxx | 6 +++---
 source/bits15/char_to_lower.cxx | 6 +++---
 source/bits16/char_to_lower.cxx | 6 +++---
 source/bits7/char_to_lower.cxx  | 6 +++---
 source/bits8/char_to_lower.cxx  | 6 +++---
 source/bits9/char_to_lower.cxx  | 6 +++---
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..b7ce5e8 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..00bdb73 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..a2f8374 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..32add43 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..a24268d 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..67f3ba3 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
-- 
2.43.0


From 7ad539d6149f7dbcccdaa19bbdcf44f67fc2e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 14/27] fix: toLower leaves the lower case letters
 U+1E96..U+1E9D alone

---
 source/bits10/char_to_lower.cxx | 2 +-
 source/bits11/char_to_lower.cxx | 2 +-
 source/bits12/char_to_lower.cxx | 2 +-
 source/bits13/char_to_lower.cxx | 2 +-
 source/bits14/char_to_lower.cxx | 2 +-
 source/bits15/char_to_lower.cxx | 2 +-
 source/bits16/char_to_lower.cxx | 2 +-
 source/bits7/char_to_lower.cxx  | 2 +-
 source/bits8/char_to_lower.cxx  | 2 +-
 source/bits9/char_to_lower.cxx  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index b7ce5e8..2c57133 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 00bdb73..ee0bb72 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index a2f8374..bfbe774 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -283,7 +283,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index 32add43..6edf8de 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -264,7 +264,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index a24268d..8d72bb0 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 67f3ba3..597e183 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
-- 
2.43.0


From dd3f6117a528160b91b63fe41225c5dd6e114101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:17 +0000
Subject: [PATCH 15/27] fix: toLower for Unicode 11 and up maps Georgian
 Mtavruli and Medefaidrin letters

---
 source/bits11/char_to_lower.cxx | 12 ++++++++++++
 source/bits12/char_to_lower.cxx | 12 ++++++++++++
 source/bits13/char_to_lower.cxx | 12 ++++++++++++
 source/bits14/char_to_lower.cxx | 12 ++++++++++++
 source/bits15/char_to_lower.cxx | 12 ++++++++++++
 source/bits16/char_to_lower.cxx |  9 +++++++++
 6 files changed, 69 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 3c93cda..fd1ca94 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -538,6 +546,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2c57133..7495bbb 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -543,6 +551,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index ee0bb72..70d629c 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -546,6 +554,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index dc673a6..d1a7b2e 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index dc673a6..d1a7b2e 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index bfbe774..57561e1 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -276,6 +276,11 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
@@ -569,6 +574,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From 13e25e314909971b036fd16c35a47cc61f0e5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:17 +0000
Subject: [PATCH 16/27] fix: toLower for Unicode 16 leaves the unassigned gaps
 in Vithkuqi alone

---
 source/bits16/char_to_lower.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 57561e1..5ed70be 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -557,7 +557,7 @@ char32_t toLower(char32_t c)
         {
             return c + 0x28;
         }
-        else if (c >= 0x10570 && c <= 0x10595)
+        else if (c >= 0x10570 && c <= 0x10595 && c != 0x1057B && c != 0x1058B && c != 0x10593)
         {
             return c + 0x27;
         }
-- 
2.43.0


From 29ee904ae53dc2ad4dcb44776412c07a30bcab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:34 +0000
Subject: [PATCH 17/27] fix: mkUnicodeTestData fails when it cannot open or
 write its files

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index afadd52..f6ad6d9 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -53,6 +53,7 @@
 
 #include <fstream>
 
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "string_splitjoin.hxx"
@@ -100,7 +101,10 @@ void process(filebuf& inbuf, filebuf& outbuf)
         outStream << " 0xFFFFFFFF };" << endl;
     }
 
-    outbuf.close();
+    if (outbuf.close() == nullptr || !outStream)
+    {
+        throw runtime_error("outfile");
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -131,12 +135,18 @@ int main(int argc, char* argv[])
     try
     {
         filebuf inBuf;
-        inBuf.open(argv[1], std::ios::in);
-        opened1 = true;
+        opened1 = inBuf.open(argv[1], std::ios::in) != nullptr;
+        if (!opened1)
+        {
+            throw runtime_error("infile");
+        }
 
         filebuf outBuf;
-        outBuf.open(argv[2], std::ios::out | std::ios::trunc);
-        opened2 = true;
+        opened2 = outBuf.open(argv[2], std::ios::out | std::ios::trunc) != nullptr;
+        if (!opened2)
+        {
+            throw runtime_error("outfile");
+        }
 
         process(inBuf, outBuf);
         inBuf.close();
-- 
2.43.0


From c8cb5c2aae0df00ef295fa68a976fecb5f81ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:34 +0000
Subject: [PATCH 18/27] fix: mkUnicodeTestData fails on a line that has no
 fields

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index f6ad6d9..d1985e2 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -79,8 +79,8 @@ void process(filebuf& inbuf, filebuf& outbuf)
         int nCount = 0;
         while (oneLine.size() > 10)
         {
-            auto surrogateN = fields[1].find("Surrogate");
-            auto privateN = fields[1].find("Private");
+            auto surrogateN = fields.at(1).find("Surrogate");
+            auto privateN = fields.at(1).find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
             {
                 getline(inStream, oneLine);
-- 
2.43.0


From a7980a376bb2017b6522ac6a8431c10d806f36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 19/27] fix: length-terminated scans reject a null that cuts a
 character short

---
 source/string.cxx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 6276acc..b7effe3 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -305,8 +305,9 @@ bool isUtf8
 
         if (c == 0)
         {
-            // decoding to 0 when *p != 0 is invalid UTF-8
-            return *p == 0;
+            // decoding to 0 when *p != 0 is invalid UTF-8, and nulls are
+            // bad in length-terminated scans
+            return *p == 0 && !lengthTerminated;
         }
 
         // decoded -- how much was used?
@@ -835,8 +836,9 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
 
         if (c == 0)
         {
-            // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0 && r > 0) ? (r - 1) : 0;
+            // decoding to 0 when *p != 0 is invalid UTF-8, and nulls are
+            // bad in length-terminated scans
+            return (*p == 0 && !lengthTerminated && r > 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -914,7 +916,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
-            return r > 0 ? (r - 1) : 0;
+            return (!lengthTerminated && r > 0) ? (r - 1) : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 148425269a18aeac83775c3dad32145c7193a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:26 +0000
Subject: [PATCH 20/27] fix: 16-bit wchar_t conversions of a null pointer are
 empty

---
 interface/string.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b16e2e7..ca6a304 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -665,7 +665,7 @@ inline utf8String toUtf8(const std::wstring& src)
 inline utf16String toUtf16(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
+    if (redirect && isUtf16(redirect))
     {
         return utf16String(redirect);
     }
@@ -681,7 +681,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (redirect && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,7 +711,7 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
+    if (src && isUtf16(src))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From db879948e1ead0d630e7f84483f41e1925ffd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:53 +0000
Subject: [PATCH 21/27] fix: mkUnicodeTestData fails when its input cannot be
 read

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index d1985e2..5185f98 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -101,6 +101,11 @@ void process(filebuf& inbuf, filebuf& outbuf)
         outStream << " 0xFFFFFFFF };" << endl;
     }
 
+    if (inStream.bad())
+    {
+        throw runtime_error("infile");
+    }
+
     if (outbuf.close() == nullptr || !outStream)
     {
         throw runtime_error("outfile");
-- 
2.43.0


From 7fc372fdfa33de7361be5e31223d5bd30804821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:33 +0000
Subject: [PATCH 22/27] fix: mkUnicodeTestData ends when its input does not end
 in a line ending

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index 5185f98..5f1492f 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -61,6 +61,18 @@
 using namespace std;
 using namespace ansak;
 
+///////////////////////////////////////////////////////////////////////////
+// nextLine -- get one line, an empty one if there are no more (getline leaves
+// its string as it was when the file ended without a line ending)
+
+static void nextLine(istream& inStream, string& oneLine)
+{
+    if (!getline(inStream, oneLine))
+    {
+        oneLine.clear();
+    }
+}
+
 ///////////////////////////////////////////////////////////////////////////
 // process -- once the two files have been determined and opened/created,
 // convert the one format to the other
@@ -71,7 +83,7 @@ void process(filebuf& inbuf, filebuf& outbuf)
     ostream outStream(&outbuf);
 
     string oneLine;
-    getline(inStream, oneLine);
+    nextLine(inStream, oneLine);
     auto fields = split(oneLine, ';');
     if (!fields.empty())
     {
@@ -83,13 +95,13 @@ void process(filebuf& inbuf, filebuf& outbuf)
             auto privateN = fields.at(1).find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
             {
-                getline(inStream, oneLine);
+                nextLine(inStream, oneLine);
                 fields = split(oneLine, ';');
                 continue;
             }
 
             outStream << " 0x" << fields[0] << ',';
-            getline(inStream, oneLine);
+            nextLine(inStream, oneLine);
             fields = split(oneLine, ';');
             ++nCount;
             if (oneLine.size() != 0 && nCount % 10 == 0)
-- 
2.43.0


From 20b68c7bcb900e83fc26fa8dac02c9603e3e22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:48 +0000
Subject: [PATCH 23/27] fix: toTstring of basic_string for _MBCS does not call
 itself for ever

---
 interface/string.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interface/string.hxx b/interface/string.hxx
index ca6a304..d904fd8 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -760,6 +760,11 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 #if defined(_MBCS)
 
+// or else the basic_string forms below would only see themselves
+inline std::string toTstring(const char* test);
+inline std::string toTstring(const char16_t* test);
+inline std::string toTstring(const char32_t* test);
+
 inline std::string toTstring(const utf8String& test)
 {
     return toTstring(test.c_str());
-- 
2.43.0


From 9ec2594fa86faec1146cde59d31d90d358d8a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:48 +0000
Subject: [PATCH 24/27] fix: toTstring of UTF-16 for _UNICODE checks its source

---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index d904fd8..e91ce45 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -837,7 +837,7 @@ inline std::wstring toTstring(const char* test)
 
 inline std::wstring toTstring(const utf16String& test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test.c_str()));
+    return toWstring(test);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -849,7 +849,7 @@ inline std::wstring toTstring(const ucs2String& test)
 
 inline std::wstring toTstring(const char16_t* test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test));
+    return toWstring(test);
 }
 
 inline std::wstring toTstring(const ucs4String& test)
-- 
2.43.0


From d4d719dd3abe7586b29b1c6cc918abba373d174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:48 +0000
Subject: [PATCH 25/27] fix: toUtf8 and toTstring of a null char* on Windows
 are empty

---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index e91ce45..70bed59 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -746,7 +746,7 @@ inline std::wstring toWstring(const ucs4String& src)
 
 inline utf8String toUtf8(const char* src)
 {
-  if (isUtf8(src))
+  if (src && isUtf8(src))
   {
     return utf8String(src);
   }
@@ -772,7 +772,7 @@ inline std::string toTstring(const utf8String& test)
 
 inline std::string toTstring(const char* test)
 {
-    if (isUtf8(test, kAscii))
+    if (test && isUtf8(test, kAscii))
     {
         return std::string(test);
     }
-- 
2.43.0


From 1b37bbe77dc93e304582ddc5b560754207c208ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:46 +0000
Subject: [PATCH 26/27] fix: trimming a long run of leading characters takes
 linear time

---
 interface/string_trim.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 9965047..5669ea7 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -57,10 +57,13 @@ void trim(std::basic_string<C>& victim)
     {
         victim.erase(victim.size() - 1);
     }
-    while (!victim.empty() && victim[0] == static_cast<C>(' '))
+    // erased all at once: one by one would take time quadratic in the length
+    typename std::basic_string<C>::size_type leading = 0;
+    while (leading < victim.size() && victim[leading] == static_cast<C>(' '))
     {
-        victim.erase(0, 1);
+        ++leading;
     }
+    victim.erase(0, leading);
 }
 
 template<typename C>
@@ -73,10 +76,14 @@ void trim(std::basic_string<C>& victim, const std::basic_string<C>& spaces)
     {
         victim.erase(victim.size() - 1);
     }
-    while (!victim.empty() && spaces.find_first_of(victim[0]) != std::basic_string<C>::npos)
+    // erased all at once: one by one would take time quadratic in the length
+    typename std::basic_string<C>::size_type leading = 0;
+    while (leading < victim.size() &&
+           spaces.find_first_of(victim[leading]) != std::basic_string<C>::npos)
     {
-        victim.erase(0, 1);
+        ++leading;
     }
+    victim.erase(0, leading);
 }
 
 inline void trimAscii7WhiteSpace(std::string& victim)
-- 
2.43.0


From 0ae5a2736539ef16a69272654178dd09095a5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:04 +0000
Subject: [PATCH 27/27] fix: getUnicodeVersionSupported was empty before the
 library's globals were constructed

---
 source/bits10/char_is_unicode.cxx | 2 +-
 source/bits11/char_is_unicode.cxx | 2 +-
 source/bits12/char_is_unicode.cxx | 2 +-
 source/bits13/char_is_unicode.cxx | 2 +-
 source/bits14/char_is_unicode.cxx | 2 +-
 source/bits15/char_is_unicode.cxx | 2 +-
 source/bits16/char_is_unicode.cxx | 2 +-
 source/bits7/char_is_unicode.cxx  | 2 +-
 source/bits8/char_is_unicode.cxx  | 2 +-
 source/bits9/char_is_unicode.cxx  | 2 +-
 source/string_internal.hxx        | 2 +-
 11 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/bits10/char_is_unicode.cxx b/source/bits10/char_is_unicode.cxx
index 0725933..33762b3 100644
--- a/source/bits10/char_is_unicode.cxx
+++ b/source/bits10/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "10.0.0";
+const char supportedUnicodeVersion[] = "10.0.0";
 
 namespace
 {
diff --git a/source/bits11/char_is_unicode.cxx b/source/bits11/char_is_unicode.cxx
index a17178f..c9266f0 100644
--- a/source/bits11/char_is_unicode.cxx
+++ b/source/bits11/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "11.0.0";
+const char supportedUnicodeVersion[] = "11.0.0";
 
 namespace
 {
diff --git a/source/bits12/char_is_unicode.cxx b/source/bits12/char_is_unicode.cxx
index d50de0a..6161dc2 100644
--- a/source/bits12/char_is_unicode.cxx
+++ b/source/bits12/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "12.0.0";
+const char supportedUnicodeVersion[] = "12.0.0";
 
 namespace
 {
diff --git a/source/bits13/char_is_unicode.cxx b/source/bits13/char_is_unicode.cxx
index 6824dac..4c35e32 100644
--- a/source/bits13/char_is_unicode.cxx
+++ b/source/bits13/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "13.0.0";
+const char supportedUnicodeVersion[] = "13.0.0";
 
 namespace
 {
diff --git a/source/bits14/char_is_unicode.cxx b/source/bits14/char_is_unicode.cxx
index 1520b5a..3fca02f 100644
--- a/source/bits14/char_is_unicode.cxx
+++ b/source/bits14/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "14.0.0";
+const char supportedUnicodeVersion[] = "14.0.0";
 
 namespace
 {
diff --git a/source/bits15/char_is_unicode.cxx b/source/bits15/char_is_unicode.cxx
index 00c01b3..f08b49f 100644
--- a/source/bits15/char_is_unicode.cxx
+++ b/source/bits15/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "15.0.0";
+const char supportedUnicodeVersion[] = "15.0.0";
 
 namespace
 {
diff --git a/source/bits16/char_is_unicode.cxx b/source/bits16/char_is_unicode.cxx
index 175ab79..012854e 100644
--- a/source/bits16/char_is_unicode.cxx
+++ b/source/bits16/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "16.0.0";
+const char supportedUnicodeVersion[] = "16.0.0";
 
 namespace
 {
diff --git a/source/bits7/char_is_unicode.cxx b/source/bits7/char_is_unicode.cxx
index 3f6a0b2..7b233e2 100644
--- a/source/bits7/char_is_unicode.cxx
+++ b/source/bits7/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "7.0.0";
+const char supportedUnicodeVersion[] = "7.0.0";
 
 namespace
 {
diff --git a/source/bits8/char_is_unicode.cxx b/source/bits8/char_is_unicode.cxx
index c9dd870..3388add 100644
--- a/source/bits8/char_is_unicode.cxx
+++ b/source/bits8/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "8.0.0";
+const char supportedUnicodeVersion[] = "8.0.0";
 
 namespace
 {
diff --git a/source/bits9/char_is_unicode.cxx b/source/bits9/char_is_unicode.cxx
index f5f6f3d..a4c3e35 100644
--- a/source/bits9/char_is_unicode.cxx
+++ b/source/bits9/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "9.0.0";
+const char supportedUnicodeVersion[] = "9.0.0";
 
 namespace
 {
diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index e800ca0..81484e1 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -108,7 +108,7 @@ private:
 //=========================================================================
 // Get current implementation's supported Unicode version string.
 
-extern const utf8String supportedUnicodeVersion;
+extern const char supportedUnicodeVersion[];
 
 //=========================================================================
 // Returns true if the character is in the selected Unicode 8 standard, false
-- 
2.43.0

