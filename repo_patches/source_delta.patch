From 28823c10d2549cfdebae147be2955ae507012b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:57 +0000
Subject: [PATCH 01/42] fix: is_code_point_valid rejected U+xD800..U+xDFFF on
 every plane

The surrogate test truncated the code point to 16 bits.
---
 api/src/cmp/unicode/examiners.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..ca30cbe 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -90,7 +90,10 @@ is_code_point_valid (
 noexcept
 {
     return code_point <= maximum_code_point
-        && !is_surrogate(code_point);
+        && !(
+            code_point >= leading_surrogate_minimum_value
+                && code_point <= trailing_surrogate_maximum_value
+        );
 } // function -----------------------------------------------------------------
 
 constexpr
-- 
2.43.0


From d8314500bbd3889d6a70d308cb96b5b38678b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:57 +0000
Subject: [PATCH 02/42] fix: inserting an invalid code point in a UTF-16 string
 stored garbage

Throw invalid_code_point for surrogates and values above U+10FFFF, as the
UTF-8 branch does.
---
 api/src/cmp/unicode/algorithms.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index bffc917..1b31a5a 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -150,10 +150,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 2
                )
     ) {
-        if (
-            !is_surrogate(code_point)
-                && code_point <= maximum_bmp_code_point
-        ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+        if (code_point <= maximum_bmp_code_point) {
             s.insert(index, 1, static_cast<char16_t>(code_point));
         } else {
             code_point -= 0x10000;
-- 
2.43.0


From 576d64477612c0b70656d447b418289993b369f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:57 +0000
Subject: [PATCH 03/42] fix: advancing over a truncated sequence read past the
 end of the string

---
 api/src/cmp/unicode/by_code_point.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..d909744 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -466,7 +466,7 @@ const
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -493,7 +493,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -841,7 +841,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -862,7 +862,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -1431,7 +1431,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1452,7 +1452,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
-- 
2.43.0


From 52d89d52a4a8b3c7d0eb22d028e8d1bae819cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:57 +0000
Subject: [PATCH 04/42] fix: advancing over a UTF-16 surrogate pair stopped at
 its second half

---
 api/src/cmp/unicode/by_code_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index d909744..7677eb0 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -869,7 +869,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1459,7 +1459,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
-- 
2.43.0


From 304394d5a210193eb6be9c5b911c1fdff6fb2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:57 +0000
Subject: [PATCH 05/42] fix: subtracting an offset from a UTF-16 iterator moved
 it forward

---
 api/src/cmp/unicode/by_code_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 7677eb0..22ce570 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -915,7 +915,7 @@ by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
     while (offset-- > 0) {
-        advance();
+        retreat();
     }
 } // function -----------------------------------------------------------------
 
@@ -1518,7 +1518,7 @@ by_code_point<wchar_t>::const_iterator::retreat (
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
         while (offset-- > 0) {
-            advance();
+            retreat();
         }
     } else {
         m_current_iterator -= offset;
-- 
2.43.0


From 818459e952b598a6328cbf33eee6cfc51787d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 06/42] fix: ill-formed UTF-8 was decoded as if it were valid

Overlong sequences, encoded surrogates and values above U+10FFFF now throw
invalid_unicode_encoding.
---
 api/include/cmp/unicode/impl/impl.hpp |  8 ++++++++
 api/src/cmp/unicode/by_code_point.cpp |  2 ++
 api/src/cmp/unicode/impl/impl.cpp     | 15 +++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/api/include/cmp/unicode/impl/impl.hpp b/api/include/cmp/unicode/impl/impl.hpp
index e044dd2..42ca68d 100644
--- a/api/include/cmp/unicode/impl/impl.hpp
+++ b/api/include/cmp/unicode/impl/impl.hpp
@@ -22,6 +22,14 @@ initialize_utf8_sequence (
     char32_t& initial_code_point_value
 );
 
+CMP_CONDITIONAL_INLINE
+CMP_LIBRARY_NAME
+void
+check_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+);
+
 CMP_CONDITIONAL_INLINE
 CMP_LIBRARY_NAME
 int
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 22ce570..1829bb7 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -254,6 +254,7 @@ const
         code_point,
         m_current_iterator
     );
+    impl::check_utf8_sequence(sequence_length, code_point);
     return code_point;
 } // function -----------------------------------------------------------------
 
@@ -521,6 +522,7 @@ by_code_point<char8_t>::const_iterator::advance ()
         code_point,
         m_current_iterator
     );
+    impl::check_utf8_sequence(sequence_length, code_point);
 } // function -----------------------------------------------------------------
 
 void
diff --git a/api/src/cmp/unicode/impl/impl.cpp b/api/src/cmp/unicode/impl/impl.cpp
index 91483c0..c09b12d 100644
--- a/api/src/cmp/unicode/impl/impl.cpp
+++ b/api/src/cmp/unicode/impl/impl.cpp
@@ -31,6 +31,21 @@ initialize_utf8_sequence (
     }
 } // function -----------------------------------------------------------------
 
+void
+check_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+) {
+    if (
+        !is_code_point_valid(code_point)
+            || (sequence_length == 2 && code_point < 0x80)
+            || (sequence_length == 3 && code_point < 0x800)
+            || (sequence_length == 4 && code_point < 0x10000)
+    ) {
+        throw invalid_unicode_encoding{};
+    }
+} // function -----------------------------------------------------------------
+
 int
 initialize_utf16_sequence (
     char16_t leading_code_unit,
-- 
2.43.0


From dfe7372a5360f3fdf595f87bce3110945911568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 07/42] fix: validate_string accepted surrogates in UTF-32
 strings

---
 api/src/cmp/unicode/algorithms.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 1b31a5a..2035054 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -287,7 +287,7 @@ noexcept
     auto bcp_iterator{std::cbegin(bcp_range)};
     try {
         while (bcp_iterator != bcp_range_end) {
-            if (*bcp_iterator > maximum_code_point) {
+            if (!is_code_point_valid(*bcp_iterator)) {
                 return bcp_iterator;
             }
             ++bcp_iterator;
-- 
2.43.0


From 23a2d716e5bde78277774f34b4e67d9960f42331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 08/42] fix: formatting the smallest value of a signed type was
 undefined

---
 api/src/cmp/unicode/formatters.ipp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..fb5a87d 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,23 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+    unsigned long long magnitude{static_cast<unsigned long long>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From 6962979adbb063cf088f43742f4d71773f6ecf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 09/42] fix: set_radix accepted radices that the constructor
 rejects

A radix of 0 divided by zero in the formatters.
---
 api/include/cmp/unicode/formats.hpp |  6 ++----
 api/src/cmp/unicode/formats.cpp     | 14 ++++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/formats.hpp b/api/include/cmp/unicode/formats.hpp
index e69584d..054a65c 100644
--- a/api/include/cmp/unicode/formats.hpp
+++ b/api/include/cmp/unicode/formats.hpp
@@ -435,8 +435,7 @@ public:
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
@@ -648,8 +647,7 @@ public:
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
diff --git a/api/src/cmp/unicode/formats.cpp b/api/src/cmp/unicode/formats.cpp
index f9db33a..7aab38f 100644
--- a/api/src/cmp/unicode/formats.cpp
+++ b/api/src/cmp/unicode/formats.cpp
@@ -109,9 +109,10 @@ const noexcept
 void
 integer_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
@@ -194,9 +195,10 @@ const noexcept
 void
 floating_point_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From f16686e0018090ea6696e0f37272fc85354278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:42 +0000
Subject: [PATCH 10/42] fix: parse_integer read before the start of ill-formed
 UTF-8 text

Iterating backwards over a string that starts with a trailing byte ran off its
start; ill-formed text now fails to parse.
---
 api/src/cmp/unicode/parsers.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..b6ee3b8 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -29,6 +29,9 @@ number_parser::parse_integer (
     }
 
     by_code_point bcp_range{input};
+    // Iterating backwards below is only safe over well-formed text.
+    for (auto i{bcp_range.cbegin()}; i != bcp_range.cend(); ++i) {
+    }
     auto bcp_iterator{bcp_range.crbegin()};
 
     const auto format_radix{format.get_radix()};
-- 
2.43.0


From 7704efeb33e242110c0ad8b75d234e7e1ef5c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:57 +0000
Subject: [PATCH 11/42] fix: parse_integer overflowed on values the output type
 cannot hold

Throw parse_failed (out_of_range) instead.
---
 api/include/cmp/unicode/parsers.hpp | 20 ++++++++------
 api/src/cmp/unicode/parsers.cpp     | 31 +++++++++++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 43 ++++++++++++-----------------
 3 files changed, 61 insertions(+), 33 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 1d90092..75d015f 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_UNICODE_PARSERS_HPP_INCLUDED
 #define CMP_UNICODE_PARSERS_HPP_INCLUDED
 
+#include <limits>
 #include <algorithm>
 #include <cmath>
 
@@ -93,19 +94,21 @@ private:
         thousands_separator format_thousands_separator
     );
 
-    template <
-        std::integral Output
-    >
+    CMP_CONDITIONAL_INLINE
     static
     void
     prepend_digit (
-        Output& power,
+        unsigned long long& power,
         unsigned int radix,
-        Output& output,
+        unsigned long long& output,
         int current_digit,
         unsigned int& digits_counted
-    )
-    noexcept;
+    );
+
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    report_out_of_range ();
 
     template <
         std::floating_point Output
@@ -145,7 +148,8 @@ public:
         thousands_separator_missing,
         digit_character_expected,
         negative_unsigned,
-        wrong_place_limit
+        wrong_place_limit,
+        out_of_range
     }; // enum ----------------------------------------------------------------
 
     // Constructors and Destructor --------------------------------------------
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 75de8a3..362c08f 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -112,6 +112,37 @@ number_parser::check_for_thousands_separator (
     }
 } // function -----------------------------------------------------------------
 
+void
+number_parser::prepend_digit (
+    unsigned long long& power,
+    unsigned int radix,
+    unsigned long long& output,
+    int current_digit,
+    unsigned int& digits_counted
+) {
+    constexpr auto maximum{std::numeric_limits<unsigned long long>::max()};
+    // A power of 0 means that the place value is no longer representable.
+    power = power > maximum / radix ? 0 : power * radix;
+    if (current_digit != 0) {
+        const auto digit{static_cast<unsigned long long>(current_digit)};
+        if (power == 0 || digit > (maximum - output) / power) {
+            report_out_of_range();
+        }
+        output += digit * power;
+    }
+    ++digits_counted;
+} // function -----------------------------------------------------------------
+
+void
+number_parser::report_out_of_range ()
+{
+    throw parse_failed{
+        "The value of the input string is "
+        "not representable in the output type.",
+        parse_failed::type::out_of_range
+    };
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::parse_failed
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index b6ee3b8..337284b 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -39,16 +39,12 @@ number_parser::parse_integer (
     const auto format_sign_status{format.get_sign_status()};
 
     int current_digit{get_next_digit(*bcp_iterator, format_radix)};
-    Output output{static_cast<Output>(current_digit)};
-
+    unsigned long long output{static_cast<unsigned long long>(current_digit)};
     ++bcp_iterator;
-    if (bcp_iterator == bcp_range.crend()) {
-        return output;
-    }
 
     bool sign_found{false};
     bool negate{false};
-    Output power{1};
+    unsigned long long power{1};
     unsigned int digits_counted{1};
     char32_t current_character;
 
@@ -98,7 +94,14 @@ number_parser::parse_integer (
     }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-            output = -output;
+            if (
+                output > static_cast<unsigned long long>(
+                    std::numeric_limits<Output>::max()
+                ) + 1
+            ) {
+                report_out_of_range();
+            }
+            return static_cast<Output>(0 - output);
         } else {
             throw parse_failed{
                 "The input string contains a negative "
@@ -107,7 +110,14 @@ number_parser::parse_integer (
             };
         }
     }
-    return output;
+    if (
+        output > static_cast<unsigned long long>(
+            std::numeric_limits<Output>::max()
+        )
+    ) {
+        report_out_of_range();
+    }
+    return static_cast<Output>(output);
 } // function -----------------------------------------------------------------
 
 template <
@@ -198,23 +208,6 @@ number_parser::parse_floating_point (
 
 // Private Functions ----------------------------------------------------------
 
-template <
-    std::integral Output
->
-void
-number_parser::prepend_digit (
-    Output& power,
-    unsigned int radix,
-    Output& output,
-    int current_digit,
-    unsigned int& digits_counted
-)
-noexcept
-{
-    power *= radix;
-    output += current_digit * power;
-    ++digits_counted;
-} // function -----------------------------------------------------------------
 
 template <
     std::floating_point Output
-- 
2.43.0


From bcd77f5d4d2a900560c04136d148ac693932492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:57 +0000
Subject: [PATCH 12/42] fix: parse_integer accepted a sign or separator in the
 wrong place

'1-2', ',100' and '-,100' now fail to parse.
---
 api/src/cmp/unicode/parsers.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 337284b..6e57aed 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -50,11 +50,13 @@ number_parser::parse_integer (
 
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
+        if (sign_found && !is_sign_character(current_character)) {
+            report_non_digit_character();
+        }
         if (
             digits_counted == 3
                 && format_thousands_separator != thousands_separator::none
         ) {
-            digits_counted = 0;
             if (
                 check_for_sign(
                     current_character,
@@ -69,6 +71,7 @@ number_parser::parse_integer (
                 current_character,
                 format_thousands_separator
             );
+            digits_counted = 0;
             continue;
         }
         if (
@@ -92,6 +95,9 @@ number_parser::parse_integer (
             digits_counted
         );
     }
+    if (digits_counted == 0) {
+        report_non_digit_character();
+    }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
             if (
-- 
2.43.0


From fa746a1e43f4d709db2f7e9f2570474b8888a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:57 +0000
Subject: [PATCH 13/42] fix: parse_floating_point added the fraction of a
 negative number

'-1.5' was parsed as -0.5 and '-0.5' as 0.5.
---
 api/src/cmp/unicode/parsers.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 6e57aed..ab67bb3 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -183,7 +183,7 @@ number_parser::parse_floating_point (
                 };
             }
         }
-        Output root = 1;
+        Output root = u32_input.front() == '-' ? -1 : 1;
         int current_digit;;
         unsigned int digits_counted{0};
         while (radix_character_iterator != u32_input.cend()) {
-- 
2.43.0


From 72f105d1474312870755948bef0beafce0786083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:57 +0000
Subject: [PATCH 14/42] fix: parse_floating_point did not enforce the radix
 place limit

---
 api/src/cmp/unicode/parsers.ipp | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index ab67bb3..24870bd 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -172,16 +172,32 @@ number_parser::parse_floating_point (
             )
         };
         ++radix_character_iterator;
-        if (radix_character_iterator == u32_input.cend()) {
-            if (format.get_radix_place_limit() == radix_place_limit::none) {
-                return output;
-            } else if (format.get_radix_place_count() > 0) {
-                throw parse_failed{
-                    "The input string had insufficient "
-                    "places after the radix point.",
-                    parse_failed::type::wrong_place_limit
-                };
-            }
+        const auto place_count{
+            static_cast<std::size_t>(
+                u32_input.cend() - radix_character_iterator
+            )
+        };
+        const auto place_limit{format.get_radix_place_limit()};
+        if (
+            (
+                place_limit == radix_place_limit::exactly_equal
+                    && place_count != format.get_radix_place_count()
+            )
+            || (
+                place_limit == radix_place_limit::up_to
+                    && place_count > format.get_radix_place_count()
+            )
+            || (
+                place_limit == radix_place_limit::up_to
+                    && place_count == 0
+                    && format.get_radix_place_count() > 0
+            )
+        ) {
+            throw parse_failed{
+                "The input string had the wrong number "
+                "of places after the radix point.",
+                parse_failed::type::wrong_place_limit
+            };
         }
         Output root = u32_input.front() == '-' ? -1 : 1;
         int current_digit;;
-- 
2.43.0


From 960ccf42b6eb3f607c5d76b3bd23143f1f008b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:57 +0000
Subject: [PATCH 15/42] fix: format_floating_point misformatted negative
 fractions

-1.5 became '-2.5' and -0.5 became '-1.5'; 0.5 also lost a requested sign.
---
 api/src/cmp/unicode/formatters.ipp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index fb5a87d..c6e85b5 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -81,17 +81,26 @@ number_formatter::format_floating_point (
 ) {
     integer_format equivalent_format{
         format.get_radix(),
-        format.get_sign_status(),
+        sign_status::only_when_negative,
         format.get_thousands_separator()
     };
+    char sign_character{' '};
+    if (input < 0) {
+        sign_character = '-';
+        input = -input;
+    } else if (
+        input > 0 && format.get_sign_status() == sign_status::always_show
+    ) {
+        sign_character = '+';
+    }
     Output output{
         number_formatter::format_integer<Output>(
             static_cast<long long>(std::floor(input)),
             equivalent_format
         )
     };
-    if (input < 0) {
-        input = -input;
+    if (sign_character != ' ') {
+        prepend_code_point(output, sign_character);
     }
     Input fractional_part{input - std::floor(input)};
     if (fractional_part == 0) {
-- 
2.43.0


From 7685db8822ccc852d89db8358962482798c990d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:57 +0000
Subject: [PATCH 16/42] fix: format_floating_point overflowed or never returned
 on huge values

Values whose integral part does not fit, infinities and NaN now throw
std::out_of_range; NaN and infinity used to append digits for ever.
---
 api/include/cmp/unicode/formatters.hpp |  2 ++
 api/src/cmp/unicode/formatters.ipp     | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d1e18c0..76dabc5 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -5,6 +5,8 @@
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
 #include <cmath>
+#include <limits>
+#include <stdexcept>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index c6e85b5..6d4fe28 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -84,6 +84,16 @@ number_formatter::format_floating_point (
         sign_status::only_when_negative,
         format.get_thousands_separator()
     };
+    if (
+        !(
+            std::abs(input)
+                < static_cast<Input>(std::numeric_limits<long long>::max())
+        )
+    ) {
+        throw std::out_of_range{
+            "The value is not finite or its integral part is too large."
+        };
+    }
     char sign_character{' '};
     if (input < 0) {
         sign_character = '-';
-- 
2.43.0


From ad85b1830889b0f2ac1259ac5199631e52b5eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:18 +0000
Subject: [PATCH 17/42] fix: format_floating_point ended a fraction with a
 thousands separator

1.125 with commas became '1.125,'.
---
 api/src/cmp/unicode/formatters.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 6d4fe28..e26f9e6 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -134,8 +134,6 @@ number_formatter::format_floating_point (
         ) {
             break;
         }
-        append_code_point(fractional_part_string, character);
-        ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
             switch (format.get_thousands_separator()) {
@@ -146,9 +144,11 @@ number_formatter::format_floating_point (
                     append_code_point(fractional_part_string, '.');
                     break;
                 case thousands_separator::none:
-                    continue;
+                    break;
             }
         }
+        append_code_point(fractional_part_string, character);
+        ++digits_counted;
     }
     if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
         while ((radix_places_counted++) < format.get_radix_place_count()) {
-- 
2.43.0


From cada027d953cbec85b0d2cf1ec5071c25d977d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:18 +0000
Subject: [PATCH 18/42] fix: format_floating_point ignored the place limit on
 whole numbers

A whole number was not padded to an exact number of places, and a limit of 0
places left a dangling radix character.
---
 api/src/cmp/unicode/formatters.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index e26f9e6..fb51af3 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -113,7 +113,10 @@ number_formatter::format_floating_point (
         prepend_code_point(output, sign_character);
     }
     Input fractional_part{input - std::floor(input)};
-    if (fractional_part == 0) {
+    if (
+        fractional_part == 0
+            && format.get_radix_place_limit() != radix_place_limit::exactly_equal
+    ) {
         return output;
     }
     Output fractional_part_string;
@@ -155,6 +158,9 @@ number_formatter::format_floating_point (
             append_code_point(fractional_part_string, '0');
         }
     }
+    if (fractional_part_string.empty()) {
+        return output;
+    }
     append_code_point(
         output,
         format.get_radix_character() == radix_character::period ? '.' : ','
-- 
2.43.0


From b376f0189bbc8456160431ab6653ac0d5e378980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:18 +0000
Subject: [PATCH 19/42] fix: format_floating_point never returned for a
 fraction in an odd radix

Without a place limit, stop after as many places as the type has binary digits.
---
 api/src/cmp/unicode/formatters.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index fb51af3..7ac9dff 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -122,7 +122,18 @@ number_formatter::format_floating_point (
     Output fractional_part_string;
     unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
+    // In an odd radix the expansion of a binary fraction never ends.
+    unsigned int remaining_odd_radix_places{
+        std::numeric_limits<Input>::digits
+    };
     while (fractional_part != 0) {
+        if (
+            format.get_radix() % 2 != 0
+                && format.get_radix_place_limit() == radix_place_limit::none
+                && (remaining_odd_radix_places--) == 0
+        ) {
+            break;
+        }
         fractional_part *= format.get_radix();
         char character{static_cast<char>(std::floor(fractional_part))};
         fractional_part -= std::floor(fractional_part);
-- 
2.43.0


From 075a3e06a3fd20cdd4bde6d9b4b48161015cab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:31 +0000
Subject: [PATCH 20/42] fix: container resources took positions in elements but
 reported bytes

get_position and is_at_end count bytes, and filling the buffer goes back
by a number of bytes, but set_position_raw multiplied every offset by the
element size. With elements wider than a byte, set_position(get_position())
moved the resource and a buffered read left it at a negative position.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..cc2a8fe 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -92,14 +92,15 @@ noexcept
 
     switch (pr) {
         case position_reference::begin:
-            m_position = new_position * sizeof (element_type);
+            m_position = new_position;
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position += new_position;
             break;
         case position_reference::end:
-            m_position = (std::size(*get_const_content_ptr()) - new_position)
-                * sizeof (element_type);
+            m_position = static_cast<std::int64_t>(
+                std::size(*get_const_content_ptr()) * sizeof (element_type)
+            ) - new_position;
             break;
     }
     m_last_fill_amount = 0;
-- 
2.43.0


From 4a303b0d0dce72414bec9bf0be68bc0dfc85d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:31 +0000
Subject: [PATCH 21/42] fix: container resources moved away from end in the
 wrong direction

An offset relative to the end was subtracted instead of added, unlike
offsets relative to the current position and unlike files.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index cc2a8fe..fed4fab 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -100,7 +100,7 @@ noexcept
         case position_reference::end:
             m_position = static_cast<std::int64_t>(
                 std::size(*get_const_content_ptr()) * sizeof (element_type)
-            ) - new_position;
+            ) + new_position;
             break;
     }
     m_last_fill_amount = 0;
-- 
2.43.0


From c997e8aca3be3af3d0720d2a7afc6dde892273d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:31 +0000
Subject: [PATCH 22/42] fix: reading a container from past its end read out of
 bounds

With the position beyond the end of the content, the number of bytes left
wrapped around to a huge value.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index fed4fab..35325b6 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -135,7 +135,9 @@ ctr_essence<Container>::read_raw (
         We check if the position would spill over the end of the content
         if we actually went ahead and read the requested number of bytes.
     */
-    if (m_position + byte_count > content_size) {
+    if (m_position >= static_cast<std::int64_t>(content_size)) {
+        byte_count = 0;
+    } else if (m_position + byte_count > content_size) {
         /*
             Here we know that the caller is requesting more bytes than
             there are bytes available. So we adjust the number of bytes
-- 
2.43.0


From 23fe23d9c44babc69f530c17ba44b4b407d7b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:31 +0000
Subject: [PATCH 23/42] fix: container resources grew by the wrong amount when
 written to

A write that overlapped the end of the content grew it by the whole size
of the write and left stray elements behind, while a write past the end,
or of a number of bytes that is not a multiple of the element size, did
not make enough room and wrote out of bounds.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 35325b6..727dc10 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -196,14 +196,14 @@ ctr_essence<Container>::write_raw (
         We check if the position would spill over the end of the content
         if we actually went ahead and wrote the requested number of bytes.
     */
-    if (m_position + byte_count > content_size) {
+    if (byte_count > 0 && m_position + byte_count > content_size) {
         /*
             Here we know that the caller is trying to write more bytes
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From f904ec833c69beec01e1c05fd87577d18aa14afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:52 +0000
Subject: [PATCH 24/42] fix: a large read after a buffered one returned the
 wrong bytes

Filling the buffer leaves the resource at the start of what was buffered.
When the rest of a read was too large for the buffer it was retrieved from
there, so the bytes already taken from the buffer were delivered again,
and the buffer still described the old place afterwards.
---
 api/src/cmp/io/impl/ctr_essence.ipp              | 2 +-
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 2 +-
 api/src/cmp/io/impl/windows/windows_file.cpp     | 2 +-
 api/src/cmp/io/input_resource.cpp                | 7 +++++++
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 727dc10..3b3d334 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -120,7 +120,7 @@ ctr_essence<Container>::read_raw (
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         resource.go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..a44bc86 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -138,7 +138,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9025917..9f0c65a 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -165,7 +165,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..50b5d0e 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -125,6 +125,13 @@ input_resource::read_buffered (
                 byte_count,
                 read_request::lean_retrieval
             );
+
+            /*
+                The resource has moved past
+                what the buffer was filled with.
+            */
+            m_buffer.set_read_dirty(true);
+
             return bytes_read;
         } else {
             /*
-- 
2.43.0


From 8e270721b4175d12d6a79c2ba41633953e0ebc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:52 +0000
Subject: [PATCH 25/42] fix: seeking from the current position ignored what was
 read from the buffer

The resource itself stays at the start of the buffered data, so a relative
seek after a buffered read has to count the bytes already taken from the
buffer, as get_position does.
---
 api/src/cmp/io/seekable_input_resource.ipp | 4 ++++
 api/src/cmp/io/seekable_io_resource.ipp    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/api/src/cmp/io/seekable_input_resource.ipp b/api/src/cmp/io/seekable_input_resource.ipp
index 25b359c..b46fdbd 100644
--- a/api/src/cmp/io/seekable_input_resource.ipp
+++ b/api/src/cmp/io/seekable_input_resource.ipp
@@ -33,6 +33,10 @@ seekable_input_resource<Position>::set_position (
 )
 noexcept
 {
+    if (pr == position_reference::current) {
+        new_position += m_buffer.get_position();
+    }
+
     this->set_position_raw(new_position, pr);
     m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7799a9b..40ab4af 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -34,6 +34,11 @@ seekable_io_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+
+    if (pr == position_reference::current) {
+        new_position += transfer_resource::m_buffer.get_position();
+    }
+
     this->set_position_raw(new_position, pr);
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 86e43f9793d8ef60231a36be5cdd712762fb588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:52 +0000
Subject: [PATCH 26/42] fix: go_back and go_forward left stale data in the
 buffer

They moved the resource but neither wrote out pending output nor dropped
buffered input, so the next operation took place elsewhere. They now seek
relative to the current position like set_position; filling the buffer
moves the underlying resource directly.
---
 api/src/cmp/io/impl/ctr_essence.ipp              | 5 +++--
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 7 +++++--
 api/src/cmp/io/impl/windows/windows_file.cpp     | 7 +++++--
 api/src/cmp/io/seekable_transfer_resource.ipp    | 4 ++--
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 3b3d334..e71e239 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -121,7 +121,8 @@ ctr_essence<Container>::read_raw (
     const auto& content_ref{*get_const_content_ptr()};
 
     if (m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
+        m_position += m_last_fill_amount;
+        m_last_fill_amount = 0;
     }
 
     /*
@@ -166,7 +167,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= byte_count;
         m_last_fill_amount = byte_count;
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index a44bc86..84373b5 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -139,7 +139,7 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        set_position_raw(m_last_fill_amount, position_reference::current);
     }
 
     std::size_t total_result;
@@ -172,7 +172,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9f0c65a..3be9f0f 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -166,7 +166,7 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        set_position_raw(m_last_fill_amount, position_reference::current);
     }
 
     std::size_t total_result;
@@ -199,7 +199,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..782bebf 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    this->set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    this->set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From a74bf9d8cc8bd99b5b54beb151067e2db2b12f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 27/42] fix: mixing reads and writes on one resource corrupted
 data

I/O resources share one buffer between both directions. A write after a
buffered read could overflow the buffer, a read after a buffered write
overwrote the pending output, and a later read continued at the wrong
place. Pending output is now written before reading, and buffered input
is dropped, keeping the position, before writing.
---
 api/include/cmp/io/seekable_io_resource.hpp | 40 +++++++++++++++++++++
 api/src/cmp/io/file.cpp                     |  4 +--
 api/src/cmp/io/seekable_io_resource.ipp     | 30 ++++++++++++++++
 3 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index b8a8d5f..cb3a7b3 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -136,6 +136,46 @@ public:
         position_reference pr
     )
     noexcept override;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes from <#this/>
+            seekable I/O resource. Output that is still in the buffer
+            is written out first.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read from <#this/> resource.
+    */
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes to <#this/>
+            seekable I/O resource. Input that is still in the buffer
+            is dropped first.
+
+        Parameters:
+            data:
+                The array of bytes that will be written to <#this/> resource.
+            byte_count:
+                The number of bytes to write to <#this/> resource.
+    */
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 4f3abd6..27c8efc 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -58,7 +58,7 @@ basic_file::read (
     switch (m_access_mode) {
         case read_only:
         case read_and_write: {
-            return input_resource::read(data, byte_count);
+            return seekable_io_resource::read(data, byte_count);
         }
         case write_only:
             throw invalid_access_mode{};
@@ -75,7 +75,7 @@ basic_file::write (
             throw invalid_access_mode{};
         case write_only:
         case read_and_write: {
-            return output_resource::write(data, byte_count);
+            return seekable_io_resource::write(data, byte_count);
         }
     }
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 40ab4af..23aec61 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -43,4 +43,34 @@ noexcept
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    if (!transfer_resource::m_buffer.is_read_dirty()) {
+        this->set_position(0, position_reference::current);
+    }
+
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 2e339d75b8da45a1ba78c81ee71385a09547cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 28/42] fix: a file read in several steps overwrote its own
 data

After a short read the rest was requested in full again and placed at the
start of the array.
---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 84373b5..64a9b1a 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -228,7 +228,12 @@ noexcept
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
     while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
+
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
-- 
2.43.0


From efc912c10d0d0a3fa608d341e8f2307c4fffc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 29/42] fix: output was lost when the system accepted only part
 of it

write may accept fewer bytes than requested, on pipes and terminals in
particular. The rest was dropped, silently when flushing the buffer.
---
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 21 ++++++++++++++----
 .../cmp/io/impl/unix_like/unix_like_uout.cpp  | 22 +++++++++++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 64a9b1a..07cbdcf 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -253,11 +253,24 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    ssize_t bytes_written_total{0};
+
+    while (static_cast<size_t>(bytes_written_total) < byte_count) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+
+        bytes_written_total += bytes_written_last;
     }
-    return native_bytes_written;
+
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..9acaad0 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,11 +36,25 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    std::size_t bytes_written_total{0};
+
+    while (bytes_written_total < byte_count) {
+        ssize_t bytes_written{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written_total,
+                byte_count - bytes_written_total
+            )
+        };
+
+        if (bytes_written == -1 || bytes_written == 0) {
+            break;
+        }
+
+        bytes_written_total += bytes_written;
     }
-    return bytes_written;
+
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
-- 
2.43.0


From b485dd7f5278fb9450abf5f365d4e4723cf4ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 30/42] fix: a failed read from standard input looked like a
 huge one

The error value -1 was returned as the number of bytes read, and the buffer
then handed out memory far beyond its end.
---
 api/src/cmp/io/impl/unix_like/unix_like_uin.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..3cca9e3 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,13 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read{::read(STDIN_FILENO, data, byte_count)};
+
+    if (bytes_read == -1) {
+        return 0;
+    }
+
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
-- 
2.43.0


From bc6f60ff645a1cc3be8a5991faa9029c19bf01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 31/42] fix: a file that was opened again kept the state of the
 previous one

Buffered input of the closed file was returned as if it came from the new
one, and is_at_end looked at the size of the old path, which terminates
the program for a file that was default-constructed.
---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 4 ++++
 api/src/cmp/io/impl/windows/windows_file.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 07cbdcf..1f2cf41 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -87,7 +87,9 @@ noexcept
         flags |= O_CREAT;
     }
     m_file_descriptor = ::open(file_path.string().c_str(), flags, 0777);
+    m_file_path = file_path;
     m_access_mode = mode;
+
     return is_open();
 } // function -----------------------------------------------------------------
 
@@ -96,6 +98,8 @@ file::close ()
 noexcept
 {
     this->flush();
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
     ::close(m_file_descriptor);
     m_file_descriptor = -1;
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 3be9f0f..5a70ab9 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -106,7 +106,9 @@ noexcept
         FILE_ATTRIBUTE_NORMAL,
         nullptr
     );
+    m_file_path = file_path;
     m_access_mode = mode;
+
     return is_open();
 } // function -----------------------------------------------------------------
 
@@ -115,6 +117,8 @@ file::close ()
 noexcept
 {
     this->flush();
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
     CloseHandle(m_handle);
     m_handle = INVALID_HANDLE_VALUE;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 760f3ce559abb15afa45001207ffc9fcc0da14fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 32/42] fix: moving a file closed it

The moved-from file kept the handle and closed it when destroyed, and its
pending output was flushed from a buffer that was no longer there. An
already open destination leaked its handle.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  4 +-
 .../cmp/io/impl/windows/windows_file.hpp      |  4 +-
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 37 +++++++++++++++++++
 api/src/cmp/io/impl/windows/windows_file.cpp  | 37 +++++++++++++++++++
 4 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 8d33fea..2fb051f 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -53,14 +53,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/impl/windows/windows_file.hpp b/api/include/cmp/io/impl/windows/windows_file.hpp
index cbd1019..1fead11 100644
--- a/api/include/cmp/io/impl/windows/windows_file.hpp
+++ b/api/include/cmp/io/impl/windows/windows_file.hpp
@@ -52,14 +52,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 1f2cf41..dc42b62 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -35,6 +35,43 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{other.m_buffer.get_capacity()}
+    , basic_file{
+          other.m_file_path,
+          other.m_access_mode,
+          other.m_buffer.get_capacity()
+      }
+    , m_file_descriptor{-1}
+{
+    *this = std::move(other);
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        // Leaves neither pending output nor input in the other's buffer.
+        other.set_position(0, position_reference::current);
+        m_buffer = io_buffer{other.m_buffer.get_capacity()};
+        m_file_path = other.m_file_path;
+        m_access_mode = other.m_access_mode;
+        m_file_descriptor = other.m_file_descriptor;
+        other.m_file_descriptor = -1;
+    }
+
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 5a70ab9..820b871 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -35,6 +35,43 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{other.m_buffer.get_capacity()}
+    , basic_file{
+          other.m_file_path,
+          other.m_access_mode,
+          other.m_buffer.get_capacity()
+      }
+    , m_handle{INVALID_HANDLE_VALUE}
+{
+    *this = std::move(other);
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        // Leaves neither pending output nor input in the other's buffer.
+        other.set_position(0, position_reference::current);
+        m_buffer = io_buffer{other.m_buffer.get_capacity()};
+        m_file_path = other.m_file_path;
+        m_access_mode = other.m_access_mode;
+        m_handle = other.m_handle;
+        other.m_handle = INVALID_HANDLE_VALUE;
+    }
+
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
-- 
2.43.0


From 3fd00bd20a7830be1c440061641c5dcb347cfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 33/42] fix: asking a file that does not exist whether it is at
 its end terminated

The size of the path was queried with an exception thrown out of a
noexcept function when the path cannot be examined.
---
 api/src/cmp/io/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 27c8efc..76670ec 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -45,7 +45,9 @@ bool
 basic_file::is_at_end ()
 const noexcept
 {
-    return get_position() == std::filesystem::file_size(m_file_path);
+    std::error_code ec;
+
+    return get_position() == std::filesystem::file_size(m_file_path, ec);
 } // function -----------------------------------------------------------------
 
 // Core -----------------------------------------------------------------------
-- 
2.43.0


From 171c5c177d81499d87de5887d715745fa9a3b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:42 +0000
Subject: [PATCH 34/42] fix: a short read in the other byte order returned the
 wrong bytes

---
 api/src/cmp/io/input_stream.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index 6d4e953..e9a2069 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -88,7 +88,7 @@ input_stream<InputResource>::read (
 ) {
     std::size_t bytes_read{m_resource.read(data, byte_count)};
     if (m_endianness != std::endian::native) {
-        invert_endianness(data, byte_count);
+        invert_endianness(data, bytes_read);
     }
     return bytes_read;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From f1c2db43c893bb0c29cc8ac9a7679178861b5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:42 +0000
Subject: [PATCH 35/42] fix: inverting the endianness of no bytes formed an
 invalid pointer

---
 api/src/cmp/io/general.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/src/cmp/io/general.cpp b/api/src/cmp/io/general.cpp
index 36f7ccb..469117d 100644
--- a/api/src/cmp/io/general.cpp
+++ b/api/src/cmp/io/general.cpp
@@ -14,6 +14,10 @@ invert_endianness (
 )
 noexcept
 {
+    if (byte_count == 0) {
+        return;
+    }
+
     std::byte* begin{data};
     std::byte* end{data + byte_count - 1};
     while (begin < end) {
-- 
2.43.0


From ab7f92a386d84646035860ec05d19ea6db401d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:17 +0000
Subject: [PATCH 36/42] fix: text input streams decoded ill-formed UTF-8 as if
 it were valid

---
 api/src/cmp/io/text_input_stream.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..341122c 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -231,6 +231,7 @@ text_input_stream<InputResource>::read_utf8_code_point ()
     char32_t result;
     int sequence_length{impl::initialize_utf8_sequence(code_unit, result)};
     result = finish_utf8_sequence(sequence_length, result);
+    impl::check_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 028d736d33374c839cfb05e812fef1d89ee5a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 37/42] fix: read_bom lost the high bytes of a code point that
 is not a mark

---
 api/src/cmp/io/text_input_stream.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 341122c..3206db6 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -323,11 +323,11 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
+                = static_cast<char32_t>(first_byte) << 8
                     | static_cast<int>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
+                = static_cast<char32_t>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         char32_t result;
@@ -381,15 +381,15 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
+                = static_cast<char32_t>(first_byte) << 24
+                    | static_cast<char32_t>(second_byte) << 16
+                    | static_cast<char32_t>(third_byte) << 8
                     | static_cast<int>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
+                = static_cast<char32_t>(fourth_byte) << 24
+                    | static_cast<char32_t>(third_byte) << 16
+                    | static_cast<char32_t>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         return result;
-- 
2.43.0


From a23edf9f12e89a15fc2b2829d93225aa8a7d55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 38/42] fix: moving the application object moves what app()
 returns

The instance pointer kept pointing to the moved-from object, which may be
destroyed before the one that it was moved into.
---
 api/include/cmp/core/application.hpp |  5 +++--
 api/src/cmp/core/application.cpp     | 32 ++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/core/application.hpp b/api/include/cmp/core/application.hpp
index 11e3027..bd58e88 100644
--- a/api/include/cmp/core/application.hpp
+++ b/api/include/cmp/core/application.hpp
@@ -6,6 +6,7 @@
 
 #include <string_view>
 #include <string>
+#include <utility>
 
 #include <cmp/core/config.hpp>
 
@@ -77,7 +78,7 @@ public:
     application (
         application&& other
     )
-    noexcept = default;
+    noexcept;
 
     /**
         Description:
@@ -94,7 +95,7 @@ public:
     operator = (
         application&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/core/application.cpp b/api/src/cmp/core/application.cpp
index c9baf05..53bfdd8 100644
--- a/api/src/cmp/core/application.cpp
+++ b/api/src/cmp/core/application.cpp
@@ -20,6 +20,38 @@ noexcept
     g_instance_ptr = this;
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+application::application (
+    application&& other
+)
+noexcept
+    : m_argc{other.m_argc}
+    , m_argv{other.m_argv}
+    , m_copyright_notice{std::move(other.m_copyright_notice)}
+{
+    if (g_instance_ptr == &other) {
+        g_instance_ptr = this;
+    }
+} // function -----------------------------------------------------------------
+
+application&
+application::operator = (
+    application&& other
+)
+noexcept
+{
+    m_argc = other.m_argc;
+    m_argv = other.m_argv;
+    m_copyright_notice = std::move(other.m_copyright_notice);
+
+    if (g_instance_ptr == &other) {
+        g_instance_ptr = this;
+    }
+
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 application*
-- 
2.43.0


From 585959dd3f01e83de08eba343e8cc42f32232199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 39/42] fix: a closed window is closed for its window object
 too (GTK)

The window object kept the pointer to the destroyed native window, so that it
could neither be opened again nor be used safely. The close handler also fell
off its end for unknown windows and used an iterator that the user's handler
could have invalidated.
---
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 40899f3..d282ad7 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -267,22 +267,40 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return FALSE;
-            } else {
-                return TRUE;
-            }
+    const auto find_association{
+        [&window_associations, window_handle] () {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [window_handle] (const auto& element) {
+                    return element.first == window_handle;
+                }
+            );
         }
+    };
+
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return FALSE;
+    }
+
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return TRUE;
     }
+
+    /*
+        The handler may have opened, moved, or closed windows,
+        so the association must be found again.
+    */
+    current_association = find_association();
+    if (current_association != std::end(window_associations)) {
+        current_association->second->grab_native_handle()
+            .gtk_application_window = NULL;
+        window_associations.erase(current_association);
+    }
+    return FALSE;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
@@ -488,6 +506,10 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 0e539e1f81710e85a93476ae706ff0934298eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 40/42] fix: updates may open and close windows (GTK)

The update loop iterated over the associations while a window's update could
add or remove some of them.
---
 .../impl/gtk/gtk_desktop_gui_application.cpp         | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 8c73ba9..5634344 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -88,11 +88,17 @@ desktop_gui_application::run ()
         if (g_main_context_pending(context)) {
             g_main_context_dispatch(context);
         } else {
+            /*
+                An update may open or close windows, which
+                changes the associations during the loop.
+            */
+            auto& window_associations{m_native_handle.window_associations};
             for (
-                auto& current_association
-                    : m_native_handle.window_associations
+                std::size_t index{0};
+                index < window_associations.size();
+                ++index
             ) {
-                impl::update_window(current_association.second);
+                impl::update_window(window_associations[index].second);
             }
         }
     }
-- 
2.43.0


From cf6561a688624ca1a3946b8224a9fb0102398912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 41/42] fix: a destroyed or overwritten window leaves no native
 window behind (GTK)

Destroying a window object that is open, or moving another one into it while
its close request is refused, left a native window whose events and updates
went to the wrong or destroyed object.
---
 .../cmp/desktop_gui/impl/gtk/gtk_window.hpp   |  8 ++++--
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 28 +++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
index f5c4e57..1a1d234 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
@@ -28,8 +28,8 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    virtual
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
@@ -145,6 +145,10 @@ private:
     void
     fix_association ()
     noexcept;
+
+    void
+    destroy_native_window ()
+    noexcept;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index d282ad7..763b567 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -319,6 +319,11 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    destroy_native_window();
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
@@ -344,6 +349,7 @@ noexcept
 {
     if (this != &other) {
         close();
+        destroy_native_window();
 
         m_native_handle = other.m_native_handle;
         m_start_time = other.m_start_time;
@@ -564,4 +570,26 @@ noexcept
     association_iterator->second = this;
 } // function -----------------------------------------------------------------
 
+void
+window::destroy_native_window ()
+noexcept
+{
+    GtkWidget* gtk_application_window{m_native_handle.gtk_application_window};
+    if (gtk_application_window == NULL) {
+        return;
+    }
+
+    auto& window_associations{
+        dgui_app()->grab_native_handle().window_associations
+    };
+    std::erase_if(
+        window_associations,
+        [gtk_application_window] (const auto& element) {
+            return element.first == gtk_application_window;
+        }
+    );
+    m_native_handle.gtk_application_window = NULL;
+    gtk_window_destroy(GTK_WINDOW(gtk_application_window));
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 3ccb84db810bf68c3946d68107f927c9679721cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 42/42] fix: a moved GUI application gives up its native
 application (GTK)

Both the moved-from and the moved-to object dropped the one reference.
---
 .../impl/gtk/gtk_desktop_gui_application.hpp  |  4 +--
 .../impl/gtk/gtk_desktop_gui_application.cpp  | 27 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp
index f4de618..2c872f1 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp
@@ -55,13 +55,13 @@ public:
     desktop_gui_application (
         desktop_gui_application&& other
     )
-    noexcept = default;
+    noexcept;
 
     desktop_gui_application&
     operator = (
         desktop_gui_application&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 5634344..34c79c7 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -50,7 +50,32 @@ desktop_gui_application::desktop_gui_application (
 
 desktop_gui_application::~desktop_gui_application ()
 {
-    g_object_unref(m_native_handle.gtk_application);
+    if (m_native_handle.gtk_application != NULL) {
+        g_object_unref(m_native_handle.gtk_application);
+    }
+} // function -----------------------------------------------------------------
+
+// Move Operations ------------------------------------------------------------
+
+desktop_gui_application::desktop_gui_application (
+    desktop_gui_application&& other
+)
+noexcept
+    : application{std::move(other)}
+    , m_native_handle{NULL, {}}
+{
+    std::swap(m_native_handle, other.m_native_handle);
+} // function -----------------------------------------------------------------
+
+desktop_gui_application&
+desktop_gui_application::operator = (
+    desktop_gui_application&& other
+)
+noexcept
+{
+    application::operator = (std::move(other));
+    std::swap(m_native_handle, other.m_native_handle);
+    return *this;
 } // function -----------------------------------------------------------------
 
 // Accessors ------------------------------------------------------------------
-- 
2.43.0

