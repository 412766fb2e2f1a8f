From 349043ea7bad9d775ad5498a534181fcff4543f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 1/9] fix: read past the power-of-ten table when formatting
 doubles

The fractional digit loop scales by a power of ten indexed by the number
of fractional digits generated, which reaches 17 for doubles, but the table had
only 10 entries: an out-of-bounds read whose value decided the rounding
of the last digit.
---
 src/detail/dtoa.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..4b509b4 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,13 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL,
+    100000000ULL, 1000000000ULL, 10000000000ULL, 100000000000ULL, 1000000000000ULL,
+    10000000000000ULL, 100000000000000ULL, 1000000000000000ULL,
+    10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL,
+    10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From 304dd24de08c5fd9d3b87627c62b98b2bb9a9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 2/9] fix: copies of integer and float formatters refer to the
 original's buffer

The compiler-generated copy operations copied the pointers into the
source object's inline buffer, so a copy changed when the original was
reassigned and dangled when it was destroyed.
---
 include/lexi/float.hpp |  2 ++
 include/lexi/int.hpp   |  2 ++
 src/float.cpp          | 22 ++++++++++++++++++++++
 src/int.cpp            | 23 +++++++++++++++++++++++
 4 files changed, 49 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..d0dbec1 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -31,6 +31,8 @@ public:
     FormatFloat(float value);
     FormatFloat(double value);
     FormatFloat(long double value);
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
 
     // DATA
     size_t size() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..afd22ae 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -36,6 +36,8 @@ public:
     FormatInt(unsigned long value);
     FormatInt(long long value);
     FormatInt(unsigned long long value);
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
 
     // DATA
     size_t size() const;
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..e854e12 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -10,6 +10,7 @@
 #include "lexi/detail/dtoa.hpp"
 #include "lexi/detail/ieee754.hpp"
 
+#include <algorithm>
 #include <cstring>
 
 
@@ -68,6 +69,27 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor, refers to its own buffer.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator, refers to its own buffer.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        first = buffer_;
+        last = std::copy(other.first, other.last, first);
+        *last = '\0';
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..6f0816e 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <algorithm>
+
 
 namespace lexi
 {
@@ -110,6 +112,27 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor, refers to its own buffer.
+ */
+FormatInt::FormatInt(const FormatInt &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator, refers to its own buffer.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        first = buffer_;
+        last = std::copy(other.first, other.last, first);
+        *last = '\0';
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From b00ebf9c6127edf2e595b39b57d9eb1a113ec4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 3/9] fix: float and double extraction rounded twice

The text was rounded to long double and then narrowed, so text close to
the midpoint of two doubles came out as the wrong neighbour, and a
formatted double did not always read back as itself (8.3e26).
---
 include/lexi/float.hpp | 2 ++
 src/float.cpp          | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index d0dbec1..4a2b128 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -54,6 +54,8 @@ public:
 class ExtractFloat
 {
 protected:
+    float float_;
+    double double_;
     long double data_;
 
 public:
diff --git a/src/float.cpp b/src/float.cpp
index e854e12..6b2b211 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -159,6 +159,9 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
+    // Parse each type directly: narrowing the long double would round twice.
+    float_ = std::strtof(string.data(), nullptr);
+    double_ = std::strtod(string.data(), nullptr);
     data_ = std::strtold(string.data(), nullptr);
 }
 
@@ -167,7 +170,7 @@ ExtractFloat::ExtractFloat(const std::string &string)
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    return float_;
 }
 
 
@@ -175,7 +178,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return double_;
 }
 
 
-- 
2.43.0


From 764ea4fa407bf0cbe20bcced934acf5e6336951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 4/9] fix: shifting a multi-word integer by whole words lost
 its low words

The move started from the top word rather than from the bottom one, and
read past the used words.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..0917ad5 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,7 +331,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-- 
2.43.0


From cbbb1a4e01dd1a832dc6b133ba657ea43495dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 5/9] fix: shifting a full integer wrote past its last word

The bounds check did not count the word that takes the bits carried out
of the top one.
---
 src/detail/bigint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 0917ad5..da4b644 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -328,7 +328,9 @@ BigInteger & BigInteger::operator<<=(size_t shift)
 
     size_t offset = shift / INT64_BYTE;
     size_t interShift = shift % INT64_BYTE;
-    LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
+    // a shift within a word may carry into one more word
+    size_t carry = interShift == 0 ? 0 : 1;
+    LEXI_ASSERT(count_ + offset + carry <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
         memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
-- 
2.43.0


From 8ed2718ee38db9131eb591600d5461039fd669e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 6/9] fix: big integer difference dropped a borrow through an
 all-ones word

Subtracting an all-ones word plus a borrow leaves the word unchanged,
which was taken to mean that nothing had been borrowed.
---
 src/detail/bigint.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index da4b644..472dd71 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -410,11 +410,10 @@ bool BigInteger::difference(const BigInteger &other,
 
     uint64_t borrow = 0;
     for (size_t i = 0; i < a->count_; i++) {
-        uint64_t d = a->digits_[i] - borrow;
-        if (i < b->count_) {
-            d -= b->digits_[i];
-        }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
+        const uint64_t x = a->digits_[i];
+        const uint64_t y = i < b->count_ ? b->digits_[i] : 0;
+        uint64_t d = x - y - borrow;
+        borrow = (x < y || (x == y && borrow)) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
             out->count_ = i + 1;
-- 
2.43.0


From 158b013db6c67e6789f955c8adaf906c45bb35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:21 +0000
Subject: [PATCH 7/9] fix: float extraction followed the process locale's
 decimal separator

Under a locale whose separator is a comma, "1.5" was read as 1, so a
formatted number did not read back.
---
 src/float.cpp | 68 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/src/float.cpp b/src/float.cpp
index 6b2b211..f5bed94 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -11,8 +11,14 @@
 #include "lexi/detail/ieee754.hpp"
 
 #include <algorithm>
+#include <clocale>
+#include <cstdlib>
 #include <cstring>
 
+#if defined(__APPLE__) || defined(__FreeBSD__)
+#   include <xlocale.h>
+#endif
+
 
 namespace lexi
 {
@@ -23,6 +29,62 @@ static const char NAN_STRING[] = LEXI_NAN;
 static const char INFINITY_STRING[] = LEXI_INFINITY;
 static const char NEGATIVE_INFINITY_STRING[] = LEXI_NEGATIVE_INFINITY;
 
+// FUNCTIONS
+// ---------
+
+// The decimal separator is always '.', so parse in the "C" locale.
+
+#if defined(__GLIBC__) || defined(__APPLE__) || defined(__FreeBSD__)
+
+    /** \brief Get the "C" locale.
+     */
+    static locale_t cLocale()
+    {
+        static const locale_t locale = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0));
+        return locale;
+    }
+
+
+    static float parseFloat(const char *string)
+    {
+        return strtof_l(string, nullptr, cLocale());
+    }
+
+
+    static double parseDouble(const char *string)
+    {
+        return strtod_l(string, nullptr, cLocale());
+    }
+
+
+    static long double parseLongDouble(const char *string)
+    {
+        return strtold_l(string, nullptr, cLocale());
+    }
+
+#else
+
+    // Platform without locale-independent parsers.
+
+    static float parseFloat(const char *string)
+    {
+        return std::strtof(string, nullptr);
+    }
+
+
+    static double parseDouble(const char *string)
+    {
+        return std::strtod(string, nullptr);
+    }
+
+
+    static long double parseLongDouble(const char *string)
+    {
+        return std::strtold(string, nullptr);
+    }
+
+#endif          // PARSE
+
 // OBJECTS
 // -------
 
@@ -160,9 +222,9 @@ ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
     // Parse each type directly: narrowing the long double would round twice.
-    float_ = std::strtof(string.data(), nullptr);
-    double_ = std::strtod(string.data(), nullptr);
-    data_ = std::strtold(string.data(), nullptr);
+    float_ = parseFloat(string.data());
+    double_ = parseDouble(string.data());
+    data_ = parseLongDouble(string.data());
 }
 
 
-- 
2.43.0


From be85075174562917e0ec13b361a7a7362bf15724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:39 +0000
Subject: [PATCH 8/9] fix: configured boolean and null literals overflowed
 fixed-size buffers

LEXI_TRUE, LEXI_FALSE and LEXI_NULL may be overridden at build time, but
the text was copied to buffers sized for the defaults and its length was
hard-coded: longer literals overflowed, all others had the wrong size.
---
 include/lexi/bool.hpp |  2 +-
 include/lexi/null.hpp |  3 ---
 src/bool.cpp          | 12 +++++-------
 src/null.cpp          | 14 ++++----------
 4 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/include/lexi/bool.hpp b/include/lexi/bool.hpp
index 6acc629..a9f34aa 100644
--- a/include/lexi/bool.hpp
+++ b/include/lexi/bool.hpp
@@ -21,7 +21,7 @@ namespace lexi
 class FormatBool
 {
 protected:
-    char buffer_[6];
+    const char *data_;
     size_t size_;
 
 public:
diff --git a/include/lexi/null.hpp b/include/lexi/null.hpp
index a334706..3ecb5ac 100644
--- a/include/lexi/null.hpp
+++ b/include/lexi/null.hpp
@@ -20,9 +20,6 @@ namespace lexi
  */
 class FormatNull
 {
-protected:
-    char buffer_[5];
-
 public:
     FormatNull();
     FormatNull(const std::nullptr_t nullp);
diff --git a/src/bool.cpp b/src/bool.cpp
index a67d1b4..c2dc947 100644
--- a/src/bool.cpp
+++ b/src/bool.cpp
@@ -8,8 +8,6 @@
 #include "lexi/bool.hpp"
 #include "lexi/detail/define.hpp"
 
-#include <cstring>
-
 
 namespace lexi
 {
@@ -26,11 +24,11 @@ static const char FALSE_STRING[] = LEXI_FALSE;
 FormatBool::FormatBool(const bool b)
 {
     if (b) {
-        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
-        size_ = 4;
+        data_ = TRUE_STRING;
+        size_ = sizeof(TRUE_STRING) - 1;
     } else {
-        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
-        size_ = 5;
+        data_ = FALSE_STRING;
+        size_ = sizeof(FALSE_STRING) - 1;
     }
 }
 
@@ -65,7 +63,7 @@ const char * FormatBool::data() const
  */
 const char * FormatBool::c_str() const
 {
-    return buffer_;
+    return data_;
 }
 
 
diff --git a/src/null.cpp b/src/null.cpp
index 905a338..ab46958 100644
--- a/src/null.cpp
+++ b/src/null.cpp
@@ -8,8 +8,6 @@
 #include "lexi/null.hpp"
 #include "lexi/detail/define.hpp"
 
-#include <cstring>
-
 
 namespace lexi
 {
@@ -23,22 +21,18 @@ static const char NULL_STRING[] = LEXI_NULL;
 
 
 FormatNull::FormatNull()
-{
-    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
-}
+{}
 
 
 FormatNull::FormatNull(const std::nullptr_t nullp)
-{
-    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
-}
+{}
 
 
 /** \brief Size of current buffer.
  */
 size_t FormatNull::size() const
 {
-    return 4;
+    return sizeof(NULL_STRING) - 1;
 }
 
 
@@ -64,7 +58,7 @@ const char * FormatNull::data() const
  */
 const char * FormatNull::c_str() const
 {
-    return buffer_;
+    return NULL_STRING;
 }
 
 
-- 
2.43.0


From 11887aa2662ad15d5e8a51eea8fcd342a40d2681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:36 +0000
Subject: [PATCH 9/9] fix: a shortest text at the very edge of the interval
 printed with trailing zeros

The fractional digit loop stopped on p2 < delta while the integral loop and
grisuRound() accept equality. For 0x1.d7bd042e594bcp-918 the loop went on to
later digits and the rounding step then brought it back to the same text,
printing 8.316205150000000e-277 instead of 8.31620515e-277.
---
 src/detail/dtoa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index 4b509b4..20ac35a 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -268,7 +268,7 @@ void generateDigits(const DiyFp &W,
         }
         p2 &= one.f - 1;
         kappa--;
-        if (p2 < delta) {
+        if (p2 <= delta) {
             *k += kappa;
             grisuRound(buffer, *len, delta, p2, one.f, wp_w.f * POWER10[-kappa]);
             return;
-- 
2.43.0

