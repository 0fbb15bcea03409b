From e865d26b186053e1a4ae1a85869dc645e7c602bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 01/22] fix: saturate cardinality arithmetic instead of
 wrapping around

---
 packages/drafter/src/refract/Cardinal.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..2e05a7c 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -59,16 +59,20 @@ namespace refract
 
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
-        return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                      cardinal{ lhs.data() + rhs.data() };
+        return (lhs == cardinal::open() || rhs == cardinal::open()
+                   || lhs.data() > cardinal::open().data() - rhs.data()) ? // saturate, sum not representable
+            cardinal::open() :
+            cardinal{ lhs.data() + rhs.data() };
     }
 
     constexpr cardinal operator*(cardinal lhs, cardinal rhs)noexcept
     {
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
-            ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+            ((lhs == cardinal::open() || rhs == cardinal::open()
+                 || lhs.data() > cardinal::open().data() / rhs.data()) ? // saturate, product not representable
+                    cardinal::open() :
+                    cardinal{ lhs.data() * rhs.data() });
     }
 }
 
-- 
2.43.0


From 49fdf38590d7d5550f49f802055ac52a0b69a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 02/22] fix: reject UTF-8 sequences with missing continuation
 bytes

decode_one accepted stray continuation bytes, 0xF8..0xFF as lead bytes and
multi-byte sequences whose continuation bytes are something else, and
returned a codepoint for them; they decode to U+FFFD now.
---
 packages/drafter/src/utils/Utf8.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..14ed6c2 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,11 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            constexpr bool is_continuation(unsigned char c) noexcept
+            {
+                return (c & 0xC0) == 0x80;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -51,11 +56,18 @@ namespace drafter
                     std::advance(first, 1);
 
                     return { cp, first };
+                } else if (cp < 0xC0) { // stray continuation byte
+                    std::advance(first, 1);
+
+                    return { replacement, first };
                 } else if (cp < 0xE0) { // two bytes
                     if (last - first < 2) {
                         return { replacement, last }; // expected more!
                     }
 
+                    if (!is_continuation(first[1]))
+                        return { replacement, first + 2 };
+
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
                     std::advance(first, 2);
@@ -67,6 +79,9 @@ namespace drafter
                         return { replacement, last }; // expected more!
                     }
 
+                    if (!is_continuation(first[1]) || !is_continuation(first[2]))
+                        return { replacement, first + 3 };
+
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
@@ -77,10 +92,13 @@ namespace drafter
 
                     return { result < 0x800 ? replacement : result, first }; // check for oversized
 
-                } else { // four bytes
+                } else if (cp < 0xF8) { // four bytes
                     if (last - first < 4)
                         return { replacement, last }; // expected more!
 
+                    if (!is_continuation(first[1]) || !is_continuation(first[2]) || !is_continuation(first[3]))
+                        return { replacement, first + 4 };
+
                     codepoint result = ((cp & 0x07) << 18)                      //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
@@ -96,6 +114,10 @@ namespace drafter
                         return { replacement, first };
 
                     return { result, first };
+                } else { // no utf8 sequence starts with this byte
+                    std::advance(first, 1);
+
+                    return { replacement, first };
                 }
             }
 
-- 
2.43.0


From 22f8e05b83ceba2840bd91afeed8218624c53593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 03/22] fix: do not read before the line index for an empty
 range at its start

GetLineFromMap dereferenced std::prev(begin()) for a range of length 0 at
location 0 (and for ranges before the first indexed line).
---
 packages/drafter/src/SourceMapUtils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..b40305b 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,7 +18,7 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt != linesEndIndex.end() && annotationPositionIt != linesEndIndex.begin()) {
             out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
         }
@@ -41,7 +41,7 @@ namespace drafter
 
         // end of byte mapping workarround
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt != linesEndIndex.end() && annotationPositionIt != linesEndIndex.begin()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
         }
-- 
2.43.0


From bef74d998abe7d647895966cd6f5fdb8640f3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 04/22] fix: count characters of sources over 2 GiB without
 signed overflow

GetLinesEndIndex counted characters in an int.
---
 packages/drafter/src/SourceMapUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index b40305b..e88f6ed 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -59,7 +59,7 @@ namespace drafter
         utils::utf8::input_iterator<std::string::const_iterator> it(source);
         utils::utf8::input_iterator<std::string::const_iterator> e{ source.end(), source.end() };
 
-        int i = 1;
+        size_t i = 1;
         for (; it != e; ++it, ++i) {
             if (*it == '\n')
                 out.push_back(i);
-- 
2.43.0


From d80f25807e51538d57123b48d8ce88591a03490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 05/22] fix: keep byte to character range conversion inside the
 buffer

Ranges starting past the end of the buffer (or index), ranges whose end
overflows size_t and multi-byte characters cut off by the end of a range made
BytesRangeToCharactersRange and strnlen_utf8 read out of bounds.
---
 .../src/markdown-parser/ByteBuffer.cc         | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..f793085 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -8,6 +8,8 @@
 
 #include "ByteBuffer.h"
 
+#include <algorithm>
+
 using namespace mdp;
 
 /* Byte lenght of an UTF8 character (based on first byte) */
@@ -20,13 +22,20 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len && s[i]) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
     return j;
 }
 
+/* Restrict range to a buffer of given size */
+static BytesRange ClampRange(const BytesRange& range, size_t size)
+{
+    const size_t location = std::min(range.location, size);
+    return BytesRange(location, std::min(range.length, size - location));
+}
+
 /* Convert range of bytes to a range of characters */
 static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange, const ByteBuffer& byteBuffer)
 {
@@ -34,19 +43,15 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
-    }
+    const BytesRange workRange = ClampRange(bytesRange, byteBuffer.length());
 
     size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    if (workRange.location > 0)
+        charLocation = strnlen_utf8(byteBuffer.c_str(), workRange.location);
 
     size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+    if (workRange.length > 0)
+        charLength = strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -58,14 +63,12 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > index.size()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - index.size();
-    }
+    const BytesRange workRange = ClampRange(bytesRange, index.size());
 
     size_t charLocation = 0;
-    if (workRange.location > 0)
+    if (workRange.location == index.size())
+        charLocation = index[index.size() - 1] + 1;
+    else if (workRange.location > 0)
         charLocation = index[workRange.location];
 
     size_t charLength = 0;
-- 
2.43.0


From 77024769badcd90969a7811debc635f4728a83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 06/22] fix: do not write past the character index for a
 truncated last character

BuildCharacterIndex wrote up to three entries past the index when the buffer
ends in an incomplete UTF-8 sequence.
---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index f793085..42fa281 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -99,7 +99,8 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
     index.resize(byteBuffer.length());
 
     while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
+        size_t charLen = UTF8_CHAR_LEN(source[pos]);
+        charLen = std::min(charLen, len - pos); // character cut off by the end of the buffer
         pos += charLen;
 
         while (charLen) {
-- 
2.43.0


From f60355d331870afbd1676f6267f8aac6c05e2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 07/22] fix: report ranges starting past the buffer as wrong
 map instead of throwing

MapBytesRangeSet let std::out_of_range escape for a range starting one past
the end and for ranges whose end overflows size_t.
---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index 42fa281..c0474dd 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -167,9 +167,9 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
     ByteBufferStream s;
     for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
 
-        if (it->location + it->length > length) {
+        if (it->location > length || it->length > length - it->location) {
             // Sundown adds an extra newline on the source input if needed.
-            if (it->location + it->length - length == 1) {
+            if (it->location <= length && it->length - (length - it->location) == 1) {
                 s << byteBuffer.substr(it->location, length - it->location);
                 return s.str();
             } else {
-- 
2.43.0


From 9e52169ad69419b4bda2118e0021e22a41885031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 08/22] fix: isReserved no longer cuts names at an embedded NUL

---
 packages/drafter/src/refract/Element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Element.cc b/packages/drafter/src/refract/Element.cc
index 61a6ea1..8b2cfaf 100644
--- a/packages/drafter/src/refract/Element.cc
+++ b/packages/drafter/src/refract/Element.cc
@@ -48,5 +48,5 @@ bool refract::isReserved(const char* w) noexcept
 
 bool refract::isReserved(const std::string& w) noexcept
 {
-    return isReserved(w.c_str());
+    return w.size() == std::strlen(w.c_str()) && isReserved(w.c_str());
 }
-- 
2.43.0


From 40abeb70b290fe0a5571ab0908e7a2cbd031443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 09/22] fix: compare enum and holder data structures without a
 value

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..d274266 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && (*l.value() == *r.value()));
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..a0d8b0e 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && (*l.data() == *r.data()));
 }
-- 
2.43.0


From 84871a1bfe03e28ac3b9a074c4400f2b8c85fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 10/22] fix: append the given value, not a constant, when the
 info element key is absent

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From 8eb506f7de6a2ee370beace84fdb6b1290d0fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 11/22] fix: compare string values in ComparableVisitor so that
 FindMemberByKey finds members

---
 packages/drafter/src/refract/ComparableVisitor.cc | 5 +++++
 packages/drafter/src/refract/ComparableVisitor.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/packages/drafter/src/refract/ComparableVisitor.cc b/packages/drafter/src/refract/ComparableVisitor.cc
index 5127aab..7dd40ab 100644
--- a/packages/drafter/src/refract/ComparableVisitor.cc
+++ b/packages/drafter/src/refract/ComparableVisitor.cc
@@ -17,6 +17,11 @@ namespace refract
     {
     }
 
+    bool ComparableVisitor::IsEqual(const std::string& first, const dsd::String& second)
+    {
+        return first == second.get();
+    }
+
     void ComparableVisitor::operator()(const MemberElement& e)
     {
         ComparableVisitor cv(compare_to); // OPTIM: reuse current visitor
diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..8ac83b5 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -32,6 +32,8 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second);
+
     public:
         enum
         {
-- 
2.43.0


From 740ada89eae8e5dafcfb6e16f3f2927e0cce65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 12/22] fix: IsExpandableVisitor no longer dereferences the
 absent value of an enum

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From 534f8fbba662c1ab353c042ecb23ce90bb9df0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 13/22] fix: IsExpandableVisitor no longer cuts element names
 at an embedded NUL

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index 43bafc5..ac2c458 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -21,7 +21,7 @@ namespace refract
                 type = e->element();
             }
 
-            return !isReserved(type.c_str());
+            return !isReserved(type);
         }
 
         template <typename T, typename V = typename T::ValueType, bool IsIterable = dsd::is_iterable<V>::value>
-- 
2.43.0


From ac0aaf76a1b0135b697b3b9d7dcc4ab378cd26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 14/22] fix: FindRootAncestor terminates on cyclic inheritance

---
 packages/drafter/src/refract/Registry.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..2433a09 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <vector>
 
 using namespace refract;
 
@@ -36,14 +37,18 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::vector<std::string> visited{ name };
 
     while (parent && !isReserved(parent->element())) {
-        const IElement* next = registry.find(parent->element());
+        const std::string ancestor = parent->element();
+        const IElement* next = registry.find(ancestor);
 
-        if (!next || (next == parent)) {
+        // unknown ancestor, or types inheriting from one another in a cycle
+        if (!next || std::find(visited.begin(), visited.end(), ancestor) != visited.end()) {
             return parent;
         }
 
+        visited.push_back(ancestor);
         parent = next;
     }
 
-- 
2.43.0


From a2fbf60be2888ae50839ece23a752a90841c4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 15/22] fix: merging arrays keeps the items of a later layer
 when the first sets none

---
 packages/drafter/src/refract/dsd/Extend.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..2cd60b3 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,11 +162,16 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (!merge.empty() && !value.empty())
-                std::transform(merge.get().begin(),
-                    merge.get().end(),
-                    std::back_inserter(value.get()),
-                    [](const std::unique_ptr<IElement>& e) { return clone(*e); });
+            if (merge.empty() || merge.get().empty())
+                return;
+
+            if (value.empty())
+                value.set();
+
+            std::transform(merge.get().begin(),
+                merge.get().end(),
+                std::back_inserter(value.get()),
+                [](const std::unique_ptr<IElement>& e) { return clone(*e); });
         }
     };
 
-- 
2.43.0


From 1205a2b9aa52d626dc91c15177a82df88fd8643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 16/22] fix: merging objects tolerates members whose key is not
 a text

---
 packages/drafter/src/refract/dsd/Extend.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index 2cd60b3..21445a7 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -96,16 +96,17 @@ namespace
                             assert(mergeMember);
 
                             auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
+
+                            // a member without a textual key matches none
+                            if (!mergeKey)
+                                return value.get().end();
 
                             return std::find_if(
                                 value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
                                         auto valueKey
                                             = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
-
-                                        return mergeKey->get() == valueKey->get();
+                                        return valueKey && mergeKey->get() == valueKey->get();
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
@@ -123,8 +124,8 @@ namespace
                                                                           auto optElMemberKey = TypeQueryVisitor::as<
                                                                               const StringElement>(
                                                                               optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
+                                                                          return optElMemberKey
+                                                                              && optElMemberKey->get()
                                                                               == mergeKey->get();
                                                                       }
                                                                       return false;
-- 
2.43.0


From 02aa14450778075eb61a062b7cab1ead39405546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 17/22] fix: assigning a markdown node from one of its
 descendants or ancestors used freed memory

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..b9a5879 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -32,12 +32,15 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
 {
+    // rhs may hold this node, or be held by it: copy before and release after everything else
+    std::unique_ptr<MarkdownNodes> children(::new MarkdownNodes(*rhs.m_children.get()));
+
     this->type = rhs.type;
     this->text = rhs.text;
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
-    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
     this->m_parent = rhs.m_parent;
+    this->m_children.swap(children);
     return *this;
 }
 
-- 
2.43.0


From f2972b5528e1374423985360dac334459bdc3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 18/22] fix: a failed capture kept stale groups, and one with
 too many groups leaked the compiled expression

---
 .../src/snowcrash/posix/RegexMatch.cc         | 40 +++++++++----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc b/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
index 15ae29e..9048c0c 100644
--- a/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
+++ b/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
@@ -7,7 +7,6 @@
 //
 
 #include <regex.h>
-#include <cstring>
 #include "../RegexMatch.h"
 
 // FIXME: Migrate to C++11.
@@ -54,39 +53,36 @@ std::string snowcrash::RegexCaptureFirst(const std::string& target, const std::s
 bool snowcrash::RegexCapture(
     const std::string& target, const std::string& expression, CaptureGroups& captureGroups, size_t groupSize)
 {
+    captureGroups.clear();
+
     if (target.empty() || expression.empty())
         return false;
 
-    captureGroups.clear();
-
     try {
+        // Allocated first: once the expression is compiled nothing may throw until it is released
+        std::vector<regmatch_t> pmatch(groupSize);
+
         regex_t regex;
         int reti = ::regcomp(&regex, expression.c_str(), REG_EXTENDED);
         if (reti)
             return false;
 
-        regmatch_t* pmatch = ::new regmatch_t[groupSize];
-        ::memset(pmatch, 0, sizeof(regmatch_t) * groupSize);
-
-        reti = ::regexec(&regex, target.c_str(), groupSize, pmatch, 0);
-        if (!reti) {
-            ::regfree(&regex);
-
-            for (size_t i = 0; i < groupSize; ++i) {
-                if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
-                    captureGroups.push_back(std::string());
-                else
-                    captureGroups.push_back(std::string(target, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so));
-            }
-
-            delete[] pmatch;
-            return true;
-        } else {
-            ::regfree(&regex);
-            delete[] pmatch;
+        reti = ::regexec(&regex, target.c_str(), groupSize, pmatch.data(), 0);
+        ::regfree(&regex);
+
+        if (reti)
             return false;
+
+        for (size_t i = 0; i < groupSize; ++i) {
+            if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
+                captureGroups.push_back(std::string());
+            else
+                captureGroups.push_back(std::string(target, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so));
         }
+
+        return true;
     } catch (...) {
+        captureGroups.clear();
     }
 
     return false;
-- 
2.43.0


From 7fe6e5c37ab3afb4151b159ee79aff19347a1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:07 +0000
Subject: [PATCH 19/22] fix: expanding an enum whose 'enumerations' attribute
 is not an array dereferenced a null pointer

---
 packages/drafter/src/refract/ExpandVisitor.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..79b998b 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -302,11 +302,9 @@ namespace refract
             o->meta() = e.meta();
 
             for (const auto& attribute : e.attributes()) {
-                if (attribute.first == "enumerations") {
-                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
-                    assert(enums);
-                    assert(!enums->empty());
+                const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
 
+                if (enums && attribute.first == "enumerations") {
                     dsd::Array expanded;
                     for (const auto& entry : enums->get()) {
                         assert(entry);
-- 
2.43.0


From 0817d8874666a3c072b395b3c5cb71141ce55e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:37 +0000
Subject: [PATCH 20/22] fix: resolve() dereferenced end() for a reference
 without a resolved element

---
 packages/drafter/src/refract/ElementUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..95108dc 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -299,7 +299,7 @@ const IElement* refract::resolve(const RefElement& element)
     const auto resolvedEntry = element.attributes().find("resolved");
     if (resolvedEntry == element.attributes().end()) {
         LOG(error) << "expected all references to be resolved in backend";
-        assert(false);
+        return nullptr;
     }
 
     assert(resolvedEntry->second);
-- 
2.43.0


From 1bea6c3d917594866a68896ac9594f552273c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:00 +0000
Subject: [PATCH 21/22] fix: YAML keys that are empty or read as null or
 boolean are quoted

---
 packages/drafter/src/utils/so/YamlIo.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..7e7d008 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -33,6 +33,14 @@ namespace
         return true;
     }
 
+    // plain scalars a YAML reader resolves to null or to a boolean
+    bool is_reserved_word(const std::string& str)
+    {
+        return str == "null" || str == "Null" || str == "NULL"      //
+            || str == "true" || str == "True" || str == "TRUE"      //
+            || str == "false" || str == "False" || str == "FALSE";
+    }
+
     bool is_yaml_printable(const codepoint& c)
     {
         return (c == 0x9)                                  //
@@ -237,7 +245,7 @@ namespace
             do_indent(out, indent);
 
             // for clearer, unescaped reading
-            if (is_alphanum_dash(m.first))
+            if (!m.first.empty() && is_alphanum_dash(m.first) && !is_reserved_word(m.first))
                 out << m.first;
             else
                 serialize_yaml(out, m.first);
-- 
2.43.0


From c27c7cbd144086bcbda77d5c7df3999b10858ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:55 +0000
Subject: [PATCH 22/22] fix: reading a number as a 64-bit integer threw from a
 noexcept function

std::stoi throws for text that is not a number and for values of 2^31 and
above; the exception left a noexcept conversion, so printing the report of an
annotation with such a source range ended the process.
---
 packages/drafter/src/refract/dsd/Number.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Number.cc b/packages/drafter/src/refract/dsd/Number.cc
index d20e7df..bd989dc 100644
--- a/packages/drafter/src/refract/dsd/Number.cc
+++ b/packages/drafter/src/refract/dsd/Number.cc
@@ -8,6 +8,8 @@
 
 #include "Number.h"
 
+#include <cstdlib>
+
 #include "Traits.h"
 #include "../../utils/log/Trivial.h"
 
@@ -40,10 +42,10 @@ const std::string& Number::get() const noexcept
 
 Number::operator std::int64_t() const noexcept
 {
-    std::string::size_type idx;
-    std::int64_t result = std::stoi(value_, &idx);
-    if (idx < value_.size())
-        LOG(warning) << "dsd::Number to int; dropped trailing `" << value_.substr(idx) << "`";
+    char* end = nullptr;
+    const std::int64_t result = std::strtoll(value_.c_str(), &end, 10);
+    if (*end != '\0')
+        LOG(warning) << "dsd::Number to int; dropped trailing `" << end << "`";
     return result;
 }
 
-- 
2.43.0

