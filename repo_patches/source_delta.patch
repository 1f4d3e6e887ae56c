From f780e36afe52f1a0175974f75807148fafe38f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 01/52] fix: JSON numbers that are out of range are reported as
 errors

Reading from iterators other than const char*, and reading with
number::strict, only asserted that the conversion succeeds; with NDEBUG
an out of range number was silently accepted and the target left unset.
---
 src/cxon/lang/common/cio/numeric.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 720670d..eb27023 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -232,8 +232,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::integral_invalid;
                         default: {
-                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::integral_invalid);
                         }
                     }
             }
@@ -246,8 +246,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::integral_invalid;
                 if (i - b == 1)
                     return t = *b - '0', true;
-                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = charconv::from_chars(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::integral_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
@@ -312,8 +312,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::floating_point_invalid;
                         default: {
-                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::floating_point_invalid);
                         }
                     }
             }
@@ -326,8 +326,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::floating_point_invalid;
                 if (i - b == 1)
                     return t = T(*b - '0'), true;
-                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = from_chars_<X>(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::floating_point_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
-- 
2.43.0


From 64289a3ce454668e2f0db92773d2105c027c1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 02/52] fix: strict JSON integers: do not read past the end, no
 leading zeros after the sign

---
 src/cxon/lang/common/cio/numeric.hxx | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index eb27023..f126e90 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -60,18 +60,11 @@ namespace cxon { namespace cio { namespace num { // read
             inline auto number_consume_(const char*& i, const char* e)
                 -> enable_if_t<std::is_integral<T>::value, int>
             {
-                char c = *i;
-                    if (is_sign_<T>(c)) goto trap_neg;
-                // trap_pos
-                    if (c == '0') return ++i, 1;
-                       if (!chr::is<X>::digit10(c)) return 0;
-                    while ( chr::is<X>::digit10(c)) c = next(i, e);
-                    goto trap_end;
-                trap_neg:
-                    c = next(i, e);
+                char c = peek(i, e);
+                    if (is_sign_<T>(c))             c = next(i, e);
+                    if (c == '0')                   return ++i, 1;
                        if (!chr::is<X>::digit10(c)) return 0;
                     while ( chr::is<X>::digit10(c)) c = next(i, e);
-                trap_end:
                     return 1;
             }
 
-- 
2.43.0


From 49e9d2628552b7a4259d8542cac413b8f8939487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 03/52] fix: truncated UTF-8 in JSON strings is not read past
 the end of the input

---
 src/cxon/lang/common/cio/char.hxx   | 8 ++------
 src/cxon/lang/common/cio/string.hxx | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..1b00f35 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -152,13 +152,9 @@ namespace cxon { namespace cio { namespace chr {
     namespace imp {
 
         template <typename II>
-            inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
+            inline unsigned char head_(II& i, II e) { return next(i, e); }
         template <typename II>
-            inline auto head_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
-        template <typename II>
-            inline auto tail_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
-        template <typename II>
-            inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline unsigned char tail_(II& i, II e) { return i != e ? peek(++i, e) : '\xFF'; }
 
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..88ebf60 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -137,7 +137,7 @@ namespace cxon { namespace cio { namespace str {
                                         auto bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
+                                        while ((i += bs) != e && (bs = chr::utf8_check(i, e)))
                                             ;
                                         --i;
                                     }
-- 
2.43.0


From f8108b9cbe6e97d53a6f347741d70329515db3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 04/52] fix: JSON strings can be read from forward and
 bidirectional iterators

The block-wise reader advances with += and --, it is for random access iterators only.
---
 src/cxon/lang/common/cio/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 88ebf60..cb9ebc6 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -73,7 +73,7 @@ namespace cxon { namespace cio { namespace str {
 
         template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
             inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-                -> enable_if_t<!chr::is_char_8<T>::value || !is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!chr::is_char_8<T>::value || !is_random_access_iterator<II>::value, bool>
             {
                 constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
                 while (i != e) {
@@ -171,7 +171,7 @@ namespace cxon { namespace cio { namespace str {
         }
         template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
             inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-                -> enable_if_t< chr::is_char_8<T>::value &&  is_forward_iterator<II>::value, bool>
+                -> enable_if_t< chr::is_char_8<T>::value &&  is_random_access_iterator<II>::value, bool>
             {
                 return imp::string_read_tail_<X>(c, i, e, cx);
             }
-- 
2.43.0


From b5970810bd074acd8a44d213d5414899b9f663cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 05/52] fix: an unpaired low surrogate escape in JSON strings
 is an error

It was accepted and stored as malformed UTF-8.
---
 src/cxon/lang/common/cio/char.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 1b00f35..751efc5 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,8 +140,9 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
             // surrogate
+                if (c32 > 0xDBFF) return cx/X::read_error::surrogate_invalid, bad_utf32;
                 if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
                 if (s32 < 0xDC00 || s32 > 0xDFFF)
-- 
2.43.0


From b2782c1d5ea55586511aadf483d55b6f3d5a4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 06/52] fix: JSON characters: an empty string, a raw delimiter
 and control characters are refused

---
 src/cxon/lang/json/fundamental.hxx | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 9869777..f5a868b 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -91,13 +91,28 @@ namespace cxon { // bool
 
 namespace cxon { // character
 
+    namespace json { namespace imp {
+
+        template <typename X, typename II, typename Cx>
+            inline char32_t char_read_(II& i, II e, Cx& cx) {
+                if (i == e || (!cio::is_quoted_key_context<X>::value && cio::str::delim_en_check<X>(*i)))
+                    return cx/json::read_error::character_invalid, cio::chr::bad_utf32;
+                CXON_IF_CONSTEXPR (X::validate_string_escapes) {
+                    if (cio::chr::is<X>::ctrl(*i))
+                        return cx/json::read_error::unexpected, cio::chr::bad_utf32;
+                }
+                return cio::chr::utf8_to_utf32<X>(i, e, cx);
+            }
+
+    }}
+
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_8<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
@@ -109,7 +124,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
@@ -121,7 +136,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
                 }
-- 
2.43.0


From 16855ed518bf4ea577985bb901df898fd3932d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 07/52] fix: null read into a character pointer sets it

---
 src/cxon/lang/common/cio/string.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index cb9ebc6..c2acaf6 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -207,7 +207,7 @@ namespace cxon { namespace cio { namespace str {
             if (!consume<X>(i, e, cx))
                 return false;
             if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return true;
+                return t = nullptr, true;
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From c17c34b2cf193d9f9e6c775ffe7d290325a613de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 08/52] fix: writing a char16_t string does not read past a
 trailing high surrogate

---
 src/cxon/lang/common/cio/char.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 751efc5..c194ef0 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -585,9 +585,8 @@ namespace cxon { namespace cio { namespace chr {
                     template <typename O, typename Cx>
                         static bool value_(O& o, const char16_t*& i, const char16_t* e, Cx& cx) {
                             char32_t c32 = *i;
-                                if (c32 >= 0xD800 && c32 <= 0xDBFF) { // surrogate
-                                    ++i;                        CXON_ASSERT(i != e, "invalid surrogate");
-                                    char32_t const s32 = *i;    CXON_ASSERT(s32 >= 0xDC00 && s32 <= 0xDFFF, "invalid surrogate");
+                                if (c32 >= 0xD800 && c32 <= 0xDBFF && e - i > 1 && i[1] >= 0xDC00 && i[1] <= 0xDFFF) { // surrogate
+                                    char32_t const s32 = *++i;
                                     c32 = char32_t(0x10000 + (((c32 - 0xD800) << 10) | (s32 - 0xDC00)));
                                 }
                             return encode_<X, char32_t>::value(o, c32, cx);
-- 
2.43.0


From e6e36b827f6154674d48f2928d6b630fe801933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:45 +0000
Subject: [PATCH 09/52] fix: CBOR integers that do not fit the target are
 refused

---
 src/cxon/lang/cbor/fundamental.hxx | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..e0ccf4c 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -8,6 +8,7 @@
 
 #include "cxon/lang/common/bio/bio.hxx"
 #include "cxon/lang/cbor/common/tag.hxx"
+#include <limits>
 
 namespace cxon { // nullptr_t
 
@@ -60,6 +61,19 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
+        template <typename T>
+            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
+
+        // the values a type can hold; bytes and characters are taken as unsigned
+        template <typename T>
+            constexpr auto unsigned_max_() noexcept -> enable_if_t<sizeof(T) != 1 && !is_quantum_<T>::value, unsigned long long> {
+                return (std::numeric_limits<T>::max)();
+            }
+        template <typename T>
+            constexpr auto unsigned_max_() noexcept -> enable_if_t<sizeof(T) == 1 ||  is_quantum_<T>::value, unsigned long long> {
+                return (std::numeric_limits<typename std::make_unsigned<T>::type>::max)();
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
                 II const o = i;
@@ -68,10 +82,12 @@ namespace cxon { // numeric|character/read
                     case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
                     case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
                         return  (t = T(b), true);
-                    case 0x18: case 0x19: case 0x1A: case 0x1B:
-                        return  (bio::get(t, 1 << (b - 0x18), i, e)) ||
+                    case 0x18: case 0x19: case 0x1A: case 0x1B: {
+                        unsigned long long u;
+                        return  (bio::get(u, 1 << (b - 0x18), i, e) && u <= unsigned_max_<T>() && (t = T(u), true)) ||
                                 (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
                         ;
+                    }
                     case 0x1C: case 0x1D: case 0x1E: case 0x1F:
                         return  (bio::rewind(i, o), cx/cbor::read_error::integer_invalid);
                     default:                                            // LCOV_EXCL_LINE
@@ -81,7 +97,13 @@ namespace cxon { // numeric|character/read
 
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+                II const o = i;
+                unsigned long long u;
+                if (!read_unsigned_<X>(u, i, e, cx))
+                    return false;
+                return  (std::is_signed<T>::value && u <= (unsigned long long)(std::numeric_limits<T>::max)() && (t = T(-1 - (long long)u), true)) ||
+                        (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                ;
             }
 
         template <typename X, typename T, typename II, typename Cx>
@@ -183,8 +205,6 @@ namespace cxon { // numeric|character/write
         template <typename T>
             inline auto power_(T t) -> enable_if_t<sizeof(T) == 8, unsigned> { return !(t >> 32) ? !(t >> 16) ? !(t >> 8) ? 0 : 1 : 2 : 3; }
 
-        template <typename T>
-            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
         template <typename T>
             struct is_signed_   : bool_constant<std::is_signed<T>::value   && !is_quantum_<T>::value> {};
         template <typename T>
-- 
2.43.0


From b29376eeebbe2ac69ad45dbd8b98583f135589ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:45 +0000
Subject: [PATCH 10/52] fix: CBOR tags are written as tags

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index e6e0eae..7334d51 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -194,7 +194,7 @@ namespace cxon {
         struct write<CBOR<X>, cbor::taggle<N, T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const cbor::taggle<N, T>& t, Cx& cx) {
-                    return write_value<Y>(o, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
+                    return cbor::cnt::write_size<Y>(o, Y::tag, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
                 }
         };
 
-- 
2.43.0


From d1030fe8ca9f189e6c2f61501e1c8073c89ba3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:06 +0000
Subject: [PATCH 11/52] fix: CBOR arrays are not read as maps, nor maps as
 arrays

---
 src/cxon/lang/cbor/common/container.hxx | 21 ++++++++++++++++++++-
 src/cxon/lang/cbor/lib/std/imp/map.hxx  |  2 +-
 src/cxon/lib/node.ordered.hxx           |  2 +-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index dda1b6c..d6d94cc 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -37,6 +37,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, typename X::tag_type tag, II& i, II e, Cx& cx);
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx);
+
     template <typename X, typename FI, typename O, typename Cx>
         inline bool write_array(O& o, FI f, FI l, Cx& cx);
     template <typename X, typename C, typename O, typename Cx> // container
@@ -212,7 +215,16 @@ namespace cxon { namespace cbor { namespace cnt {
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
-                    case X::arr: case X::map:   return imp::read_array_w_<X>(t, m, i, e, cx);
+                    case X::arr:                return imp::read_array_w_<X>(t, m, i, e, cx);
+                    default:                    return cx/cbor::read_error::array_invalid;
+                }
+            }
+
+        template <typename X, typename T, typename II, typename Cx>
+            inline bool read_map_(T& t, II& i, II e, Cx& cx) {
+                auto const m = bio::peek(i, e);
+                switch (m & X::mjr) {
+                    case X::map:                return imp::read_array_w_<X>(t, m, i, e, cx);
                     default:                    return cx/cbor::read_error::array_invalid;
                 }
             }
@@ -245,6 +257,13 @@ namespace cxon { namespace cbor { namespace cnt {
             return read_array<X>(c, tag, i, e, cx);
         }
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx) {
+            return  tag::read<X>(i, e, cx) &&
+                    imp::read_map_<X>(t, i, e, cx)
+            ;
+        }
+
 }}}
 
 namespace cxon { namespace cbor { namespace cnt {
diff --git a/src/cxon/lang/cbor/lib/std/imp/map.hxx b/src/cxon/lang/cbor/lib/std/imp/map.hxx
index fb290f0..f48449a 100644
--- a/src/cxon/lang/cbor/lib/std/imp/map.hxx
+++ b/src/cxon/lang/cbor/lib/std/imp/map.hxx
@@ -38,7 +38,7 @@ namespace cxon { namespace cbor { namespace imp {
         struct map_reader_ {
             template <typename II, typename Cx>
                 static bool value(M& m, II& i, II e, Cx& cx) {
-                    return cbor::cnt::read_array<X>(m, i, e, cx);
+                    return cbor::cnt::read_map<X>(m, i, e, cx);
                 }
         };
 
diff --git a/src/cxon/lib/node.ordered.hxx b/src/cxon/lib/node.ordered.hxx
index ce5ee25..ebf3177 100644
--- a/src/cxon/lib/node.ordered.hxx
+++ b/src/cxon/lib/node.ordered.hxx
@@ -152,7 +152,7 @@ namespace cxon { // hash
             struct read<CBOR<X>, ordered::object<K, V, Al>> {
                 template <typename II, typename Cx, typename Y = CBOR<X>>
                     static bool value(ordered::object<K, V, Al>& t, II& i, II e, Cx& cx) {
-                        return cbor::cnt::read_array<Y>(t, i, e, cx);
+                        return cbor::cnt::read_map<Y>(t, i, e, cx);
                     }
             };
         template <typename X, typename K, typename V, typename Al>
-- 
2.43.0


From 684c1cc84893cee02c8df360de2b08452255e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 12/52] fix: skipping a nested CBOR item is not recursive

---
 src/cxon/lang/cbor/common/sink.hxx | 156 +++++++++++------------------
 1 file changed, 61 insertions(+), 95 deletions(-)

diff --git a/src/cxon/lang/cbor/common/sink.hxx b/src/cxon/lang/cbor/common/sink.hxx
index 55e209e..ff7343b 100644
--- a/src/cxon/lang/cbor/common/sink.hxx
+++ b/src/cxon/lang/cbor/common/sink.hxx
@@ -6,6 +6,9 @@
 #ifndef CXON_CBOR_SINK_HXX_
 #define CXON_CBOR_SINK_HXX_
 
+#include <limits>
+#include <vector>
+
 // interface ///////////////////////////////////////////////////////////////////
 
 namespace cxon { namespace cbor {
@@ -91,109 +94,72 @@ namespace cxon {
 }
 
 namespace cxon { namespace cbor { namespace imp {
-    
+
     template <typename X, typename S>
         struct sink_reader_<CBOR<X>, S> {
             template<typename II, typename Cx, typename Y = CBOR<X>>
                 static bool read(S& s, II& i, II e, Cx& cx) {
-                    auto t = std::back_inserter(s);
-                    auto const b = bio::peek(i, e);
-                    unsigned const mjr = b & Y::mjr;
-                    unsigned const mnr = b & Y::mnr;
-                    switch (mjr) {
-                        case Y::pint: case Y::nint: case Y::tag: case Y::svn: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e));
-                                case 0x18: case 0x19: case 0x1A: case 0x1B:
-                                    return  (bio::get(t, i, e, 1 + (1 << (mnr - 0x18)))) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x1C: case 0x1D: case 0x1E: case 0x1F:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
-                            }
-                        }
-                        case Y::bstr: case Y::tstr: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e, 1 + mnr)) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    return  (
-                                                bio::get(t, i, e) &&
-                                                bio::get(n, 1U << (mnr - 0x18), i, e) &&
-                                                bio::poke(t, n, 1U << (mnr - 0x18)) &&
-                                                bio::get(t, i, e, n)
-                                            )   ||
-                                            (   bio::rewind(i, o), cx/cbor::read_error::unexpected
-                                            )
-                                    ;
-                                }
-                                case 0x1F:
-                                    do      (bio::get(t, i, e)); // should not fail
-                                    while   (bio::peek(i, e) != Y::brk);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                    II const o = i;
+                    std::vector<level> ls(1, level{1, 0}); // not recursive, the depth is up to the input
+                    do  {
+                        if (!read_one(s, ls, i, e))
+                            return bio::rewind(i, o), cx/cbor::read_error::unexpected;
+                        while (!ls.empty() && ls.back().kind == 0 && ls.back().left == 0)
+                            ls.pop_back();
+                    }   while (!ls.empty());
+                    return true;
+                }
+            private:
+                struct level {
+                    std::size_t left; // items left to be read
+                    unsigned    kind; // 0 - definite, 1 - indefinite array, 2 - indefinite map (left: items read)
+                };
+                template<typename II, typename Y = CBOR<X>>
+                    static bool read_one(S& s, std::vector<level>& ls, II& i, II e) {
+                        auto t = std::back_inserter(s);
+                        auto const b = bio::peek(i, e);
+                        unsigned const mjr = b & Y::mjr;
+                        unsigned const mnr = b & Y::mnr;
+                        if (b == Y::brk) // or the end of the input
+                            return  ls.back().kind != 0 && (ls.back().kind != 2 || ls.back().left % 2 == 0) &&
+                                    bio::get(t, i, e) && (ls.pop_back(), true)
+                            ;
+                        ls.back().kind == 0 ? --ls.back().left : ++ls.back().left;
+                        std::size_t n = mnr;
+                        switch (mnr) {
+                            case 0x18: case 0x19: case 0x1A: case 0x1B: {
+                                unsigned const l = 1U << (mnr - 0x18);
+                                if (!bio::get(t, i, e) || !bio::get(n, l, i, e) || !bio::poke(t, n, l))
+                                    return false;
+                                break;
                             }
+                            case 0x1C: case 0x1D: case 0x1E:
+                                return false;
+                            default:
+                                if (!bio::get(t, i, e))
+                                    return false;
                         }
-                        case Y::arr: case Y::map: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    bio::get(t, i, e); // should not fail
-                                    for (unsigned j = 0; j != mnr; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    if (!bio::get(t, i, e) || !bio::get(n, 1U << (mnr - 0x18), i, e) || !bio::poke(t, n, 1U << (mnr - 0x18)))
-                                        return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    for (unsigned j = 0; j != n; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                }
-                                case 0x1F:
-                                    bio::get(t, i, e); // should not fail
-                                    while (bio::peek(i, e) != Y::brk)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
-                            }
+                        switch (mjr) {
+                            case Y::bstr: case Y::tstr:
+                                if (mnr != 0x1F)
+                                    return bio::get(t, i, e, n);
+                                while (bio::peek(i, e) != Y::brk)
+                                    bio::get(t, i, e);
+                                return bio::get(t, i, e);
+                            case Y::arr:
+                                return  mnr == 0x1F ?
+                                    (ls.push_back({0, 1}), true) :
+                                    (ls.push_back({n, 0}), true)
+                                ;
+                            case Y::map:
+                                return  mnr == 0x1F ?
+                                    (ls.push_back({0, 2}), true) :
+                                    n <= (std::numeric_limits<std::size_t>::max)() / 2 && (ls.push_back({n * 2, 0}), true)
+                                ;
+                            default:
+                                return mnr != 0x1F;
                         }
-                        default:                                        // LCOV_EXCL_LINE
-                            return CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
                     }
-                }
-            template<typename II, typename Cx, typename Y = CBOR<X>>
-                static bool read_element(S& s, bio::byte m, II& i, II e, Cx& cx) {
-                    switch (m) {
-                        case Y::map:    return  sink_read<Y>(s, i, e, cx) &&
-                                                sink_read<Y>(s, i, e, cx);
-                        case Y::arr:    return  sink_read<Y>(s, i, e, cx);
-                        default:        return  CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
-                    }
-                }
         };
 
 }}}
-- 
2.43.0


From b105f90738900808c12cb633b81a6dd38d163888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 13/52] fix: single precision CBOR floats do not fail an
 assertion

---
 src/cxon/lang/common/bio/io.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 04866e7..67efdf4 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -191,8 +191,8 @@ namespace cxon { namespace bio {
             }
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<4, II>& bs) {
-                using R = unsigned long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
+                using R = std::uint32_t;
+                static_assert(sizeof(R) == sizeof(float), "unexpected");
                 union { R i; float f; } u;
                 u.i =   (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                         (R(bs[1])<<16) | (R(bs[0])<<24)
@@ -201,8 +201,8 @@ namespace cxon { namespace bio {
             }
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<8, II>& bs) {
-                using R = unsigned long long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
+                using R = std::uint64_t;
+                static_assert(sizeof(R) == sizeof(double), "unexpected");
                 union { R i; double f; } u;
                 u.i =   (R(bs[7])<< 0) | (R(bs[6])<< 8) |
                         (R(bs[5])<<16) | (R(bs[4])<<24) |
@@ -419,7 +419,7 @@ namespace cxon { namespace bio {
 
         template <typename O>
             inline bool put_(O& o, float t) {
-                union { unsigned long i; float f; } u; u.f = t;
+                union { std::uint32_t i; float f; } u; u.f = t;
                 byte bs[sizeof(float)];
                     bs[0] = byte(u.i >> 24), bs[1] = byte(u.i >> 16),
                     bs[2] = byte(u.i >>  8), bs[3] = byte(u.i >>  0);
@@ -427,7 +427,7 @@ namespace cxon { namespace bio {
             }
         template <typename O>
             inline bool put_(O& o, double t) {
-                union { unsigned long long i; double f; } u; u.f = t;
+                union { std::uint64_t i; double f; } u; u.f = t;
                 byte bs[sizeof(double)];
                     bs[0] = byte(u.i >> 56), bs[1] = byte(u.i >> 48),
                     bs[2] = byte(u.i >> 40), bs[3] = byte(u.i >> 32),
-- 
2.43.0


From 6ff79e307a0656343d9709d6165cb7d1b7720c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 14/52] fix: CBOR readers do not reserve more than the input
 can hold

---
 src/cxon/lang/cbor/common/container.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index d6d94cc..7b8ac78 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -102,6 +102,16 @@ namespace cxon { namespace cbor { namespace cnt {
                 return size_(option<1>(), c);
             }
 
+        // each element takes at least a byte of the input, whatever size is claimed
+        template <typename II>
+            inline auto size_hint_(std::size_t n, II i, II e) -> enable_if_t< is_random_access_iterator<II>::value, std::size_t> {
+                return std::min(n, static_cast<std::size_t>(std::distance(i, e)));
+            }
+        template <typename II>
+            inline auto size_hint_(std::size_t n, II, II) -> enable_if_t<!is_random_access_iterator<II>::value, std::size_t> {
+                return std::min(n, static_cast<std::size_t>(64));
+            }
+
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
                 -> enable_if_t< is_forward_iterator<II>::value, bool>
@@ -130,7 +140,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + n) &&
+                        cxon::cnt::reserve(t, size_(t) + size_hint_(n, i, e)) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
@@ -170,7 +180,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, n) &&
+                        cxon::cnt::reserve(t, size_hint_(n, i, e)) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 9b4e4a17ee8ee9b504b1f21ba28a2e1e48e498c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 15/52] fix: CBOR tuples, variants, bitsets and classes are
 read from their own kind of item only

also: class keys are not compared with the remains of the previous key, bits of a reused bitset are cleared
---
 src/cxon/lang/cbor/class.hxx              | 25 +++++++++++++----------
 src/cxon/lang/cbor/common/container.hxx   | 16 +++++++--------
 src/cxon/lang/cbor/lib/boost/variant.hxx  |  2 +-
 src/cxon/lang/cbor/lib/boost/variant2.hxx |  2 +-
 src/cxon/lang/cbor/lib/std/bitset.hxx     |  9 ++++----
 src/cxon/lang/cbor/lib/std/complex.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/tuple.hxx      |  4 ++--
 src/cxon/lang/cbor/lib/std/utility.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/variant.hxx    |  2 +-
 9 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index fc07df6..3a1487b 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -7,6 +7,8 @@
 #define CXON_CBOR_CLASS_HXX_
 
 #include "common/sink.hxx"
+#include <algorithm>
+#include <cstring>
 #include <tuple>
 
 // interface ///////////////////////////////////////////////////////////////////
@@ -122,7 +124,7 @@ namespace cxon { namespace cbor { namespace cls {
             struct read_ {
                 template <typename T, typename Fs, typename II, typename Cx>
                     static bool field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
-                        return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                        return st[N] == 0 && std::strcmp(std::get<N>(fs).name, name) == 0 ?
                             (st[N] = 1, read_field<X>(t, std::get<N>(fs), i, e, cx)) :
                             read_<X, N + 1, L>::field(t, name, fs, st, i, e, cx)
                         ;
@@ -145,17 +147,18 @@ namespace cxon { namespace cbor { namespace cls {
     template <typename X, typename T, typename ...Fs, typename II, typename Cx>
         inline bool read_fields(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx) {
             std::size_t n;
-            if (cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx)) {
-                int st[sizeof...(Fs)] = {0};
-                for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
-                    II const o = i;
-                        if (!read_value<X>(id, i, e, cx))
-                            return false;
-                        if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
-                            return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                }
+            if (!cbor::cnt::read_size_le<X>(X::map, n, sizeof...(Fs), i, e, cx))
+                return false;
+            int st[sizeof...(Fs)] = {0};
+            for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
+                II const o = i;
+                    std::fill(std::begin(id), std::end(id), '\0');
+                    if (!read_value<X>(id, i, e, cx))
+                        return false;
+                    if (*(std::end(id) - 1) != '\0' || !imp::read_field_<X>(t, id, fs, st, i, e, cx))
+                        return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
             }
-            return n == 0;
+            return true;
         }
 
     namespace imp {
diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 7b8ac78..14d6fa3 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -16,9 +16,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename II, typename Cx>
         inline bool read_size(std::size_t& s, II& i, II e, Cx& cx);
     template <typename X, typename II, typename Cx>
-        inline bool read_size_le(std::size_t& s, std::size_t n, II& i, II e, Cx& cx);
+        inline bool read_size_le(bio::byte m, std::size_t& s, std::size_t n, II& i, II e, Cx& cx);
     template <typename X, typename II, typename Cx>
-        inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx);
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx);
 
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx);
@@ -60,16 +60,16 @@ namespace cxon { namespace cbor { namespace cnt {
             ;
         }
     template <typename X, typename II, typename Cx>
-        inline bool read_size_le(std::size_t& s, std::size_t n, II& i, II e, Cx& cx) {
+        inline bool read_size_le(bio::byte m, std::size_t& s, std::size_t n, II& i, II e, Cx& cx) {
             II const o = i; std::size_t t;
-            return  (read_size<X>(t, i, e, cx) && t <= n && (s = t, true)) ||
+            return  ((bio::peek(i, e) & X::mjr) == m && read_size<X>(t, i, e, cx) && t <= n && (s = t, true)) ||
                     (bio::rewind(i, o), cx/cbor::read_error::size_invalid)
             ;
         }
     template <typename X, typename II, typename Cx>
-        inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx) {
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx) {
             II const o = i; std::size_t s;
-            return  (read_size<X>(s, i, e, cx) && s == n) ||
+            return  ((bio::peek(i, e) & X::mjr) == m && read_size<X>(s, i, e, cx) && s == n) ||
                     (bio::rewind(i, o), cx/cbor::read_error::size_invalid)
             ;
         }
@@ -139,7 +139,7 @@ namespace cxon { namespace cbor { namespace cnt {
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
-                return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
+                return  read_size_le<X>(bio::peek(i, e) & X::mjr, n, t.max_size() - size_(t), i, e, cx) &&
                         cxon::cnt::reserve(t, size_(t) + size_hint_(n, i, e)) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
@@ -179,7 +179,7 @@ namespace cxon { namespace cbor { namespace cnt {
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
-                return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
+                return  read_size_le<X>(bio::peek(i, e) & X::mjr, n, t.max_size() - size_(t), i, e, cx) &&
                         cxon::cnt::reserve(t, size_hint_(n, i, e)) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
diff --git a/src/cxon/lang/cbor/lib/boost/variant.hxx b/src/cxon/lang/cbor/lib/boost/variant.hxx
index efd8fc6..4efc107 100644
--- a/src/cxon/lang/cbor/lib/boost/variant.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant.hxx
@@ -91,7 +91,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/boost/variant2.hxx b/src/cxon/lang/cbor/lib/boost/variant2.hxx
index 303b666..102feb3 100644
--- a/src/cxon/lang/cbor/lib/boost/variant2.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant2.hxx
@@ -98,7 +98,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant2::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index c995f8c..4f1dbb8 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -17,7 +17,7 @@ namespace cxon {
                 switch (bio::peek(i, e) & X::mjr) {
                     case X::bstr: {
                         auto const M = N / 8 + std::size_t(!!(N % 8));
-                        if (!cbor::cnt::read_size_eq<X>(M + 1, i, e, cx))
+                        if (!cbor::cnt::read_size_eq<X>(X::bstr, M + 1, i, e, cx))
                             return false;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
@@ -25,8 +25,9 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
+                        t.reset();
                         if (N % 8)
-                            t |= std::bitset<N> {*i++};
+                            t |= std::bitset<N> {bio::byte(*i++)};
                         std::size_t n = N / 8;
                             for ( ; n != 0 && i != e; --n, ++i) {
                                 bio::byte const b = *i; t <<= 8;
@@ -44,7 +45,7 @@ namespace cxon {
                 switch (bio::peek(i, e) & X::mjr) {
                     case X::bstr: {
                         auto const M = N / 8 + std::size_t(!!(N % 8));
-                        if (!cbor::cnt::read_size_eq<X>(M + 1, i, e, cx))
+                        if (!cbor::cnt::read_size_eq<X>(X::bstr, M + 1, i, e, cx))
                             return false;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
@@ -52,7 +53,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
-                        return t |= std::bitset<N> {*i}, ++i, true;
+                        return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
diff --git a/src/cxon/lang/cbor/lib/std/complex.hxx b/src/cxon/lang/cbor/lib/std/complex.hxx
index b43faf5..2b6641a 100644
--- a/src/cxon/lang/cbor/lib/std/complex.hxx
+++ b/src/cxon/lang/cbor/lib/std/complex.hxx
@@ -16,7 +16,7 @@ namespace cxon {
                 static bool value(std::complex<T>& t, II& i, II e, Cx& cx) {
                     T rl, mg;
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(rl, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
                             (t.real(rl), t.imag(mg), true)
diff --git a/src/cxon/lang/cbor/lib/std/tuple.hxx b/src/cxon/lang/cbor/lib/std/tuple.hxx
index 3a6bcf1..09f9e8a 100644
--- a/src/cxon/lang/cbor/lib/std/tuple.hxx
+++ b/src/cxon/lang/cbor/lib/std/tuple.hxx
@@ -65,7 +65,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<>&, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(0, i, e, cx)
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 0, i, e, cx)
                     ;
                 }
         };
@@ -75,7 +75,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(sizeof...(T), i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, sizeof...(T), i, e, cx) &&
                             cbor::cnt::read_tuple<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/utility.hxx b/src/cxon/lang/cbor/lib/std/utility.hxx
index b416550..35c1e69 100644
--- a/src/cxon/lang/cbor/lib/std/utility.hxx
+++ b/src/cxon/lang/cbor/lib/std/utility.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(t.first, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx)
                     ;
diff --git a/src/cxon/lang/cbor/lib/std/variant.hxx b/src/cxon/lang/cbor/lib/std/variant.hxx
index cdc63cb..fb018f8 100644
--- a/src/cxon/lang/cbor/lib/std/variant.hxx
+++ b/src/cxon/lang/cbor/lib/std/variant.hxx
@@ -69,7 +69,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
-- 
2.43.0


From 604f9b371ea9dfedce0bf89ad8eeb72f537aec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 16/52] fix: CBOR reading replaces the content of a valarray

---
 src/cxon/lang/cbor/lib/std/valarray.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index c52d816..d28b61d 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -31,6 +31,7 @@ namespace cxon {
                 void push_back(value_type&& t)      { grow(), a_[i_++] = std::move(t); }
 
                 void reserve(std::size_t n)         { n > a_.size() ? grow(n) : void(); }
+                void fit()                          { if (i_ != a_.size()) { std::valarray<T> const a = a_; a_ = a[std::slice(0, i_, 1)]; } }
 
                 private:
                     void grow()                     { i_ == a_.size() ? grow(a_.size() + 1) : void(); }
@@ -58,8 +59,9 @@ namespace cxon {
         struct read<CBOR<X>, std::valarray<T>> {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::valarray<T>& t, II& i, II e, Cx& cx) {
-                    auto c = cbor::imp::valarray_container_<T> {t};
-                    return cbor::cnt::read_array<Y>(c, i, e, cx);
+                    std::valarray<T> v;
+                    auto c = cbor::imp::valarray_container_<T> {v};
+                    return cbor::cnt::read_array<Y>(c, i, e, cx) && (c.fit(), t = std::move(v), true);
                 }
         };
 
-- 
2.43.0


From fe6999e466399bf9d5be9e7e3ff298087e6e014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 17/52] fix: boost::dynamic_bitset of any size can be read;
 sizes are checked

---
 src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx | 13 ++++++++-----
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
index e24d2aa..c851787 100644
--- a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
@@ -19,17 +19,20 @@ namespace cxon {
                         std::size_t N;
                         if (!cbor::cnt::read_size<X>(N, i, e, cx))
                             return false;
+                        if (N == 0)
+                            return cx/cbor::read_error::size_invalid;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
                         bio::byte const S = *i;
-                        t.resize(t.size() + --N * 8);
-                            for (++i; N != 0 && i != e; --N, ++i) {
-                                bio::byte const b = *i; t <<= 8;
+                        if (S > 7 || (S != 0 && N == 1))
+                            return cx/cbor::read_error::size_invalid;
+                        t.clear();
+                            for (++i, --N; N != 0 && i != e; --N, ++i) {
+                                bio::byte const b = *i; t.resize(t.size() + 8); t <<= 8;
                                 t.set(7, b & 0x80); t.set(6, b & 0x40); t.set(5, b & 0x20); t.set(4, b & 0x10);
                                 t.set(3, b & 0x08); t.set(2, b & 0x04); t.set(1, b & 0x02); t.set(0, b & 0x01);
                             }
-                        t.resize(t.size() - S);
-                        return N == 0 || cx/cbor::read_error::unexpected;
+                        return (N == 0 && (t.resize(t.size() - S), true)) || cx/cbor::read_error::unexpected;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 275d243..8fd03bd 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -17,10 +17,10 @@ namespace cxon { namespace json { namespace imp {
             using st = typename BS::size_type;
             constexpr st u = sizeof(typename BS::block_type) * 8;
             st p = u;
-            t.resize(t.size() + u);
+            t.clear(), t.resize(u);
             for ( ; i != e && (*i == '1' || *i == '0'); ++i) {
                 if (p == 0)
-                    t.resize(t.size() * 2), t <<= u, p = u;
+                    t.resize(t.size() + u), t <<= u, p = u;
                 --p;
                 if (*i == '1') t.set(p);
             }
-- 
2.43.0


From e2b27ce6e7afc9a0b17d8bf5871df6ffd0da6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 18/52] fix: tags of a CBOR item read into a JSON node are not
 skipped recursively

---
 src/cxon/lib/node.cbor.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 7334d51..103170b 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -217,7 +217,13 @@ namespace cxon {
                                 case X::tstr            :                       return read_value<Y>(CXON_IMBUE(string),        i, e, cx);
                                 case X::arr             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(array),         i, e, cx); }
                                 case X::map             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(object),        i, e, cx); }
-                                case X::tag             :                       return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx);
+                                case X::tag             : {
+                                    do {
+                                        if (!cbor::tag::read<Y>(i, e, cx))
+                                            return false;
+                                    } while ((bio::peek(i, e) & X::mjr) == X::tag && i != e);
+                                    return value(t, i, e, cx);
+                                }
                                 case X::svn:
                                     switch (b) {
                                         case X::neg: case X::pos
-- 
2.43.0


From a26a4c9a3a9bb1be7d300866b01fd156aeb91293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 19/52] fix: bytes of CBOR strings read into wider elements are
 unsigned

---
 src/cxon/lang/cbor/common/container.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 14d6fa3..96c9728 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -114,7 +114,7 @@ namespace cxon { namespace cbor { namespace cnt {
 
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t< is_forward_iterator<II>::value, bool>
+                -> enable_if_t< is_forward_iterator<II>::value && sizeof(typename C::value_type) == 1, bool>
             {
                 auto const m = std::min(n, static_cast<std::size_t>(std::distance(f, l)));
                 II e = f; std::advance(e, m);
@@ -122,10 +122,10 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t<!is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!is_forward_iterator<II>::value || sizeof(typename C::value_type) != 1, bool>
             {
                 for ( ; n != 0 && f != l; --n, ++f)
-                    cxon::cnt::append(c, *f);
+                    cxon::cnt::append(c, static_cast<bio::byte>(*f)); // bytes are unsigned, char may not be
                 return n == 0;
             }
 
-- 
2.43.0


From befc794791e89d0d4f74c07da3000c507cc1bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 20/52] fix: number conversion without <charconv> reads within
 the input range and like <charconv>

---
 src/cxon/lang/common/charconv.hxx | 143 ++++++++++++++++++++----------
 1 file changed, 97 insertions(+), 46 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 85a2999..6250e9b 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -14,6 +14,8 @@
 
 #include <algorithm> // reverse
 #include <limits>
+#include <memory>      // unique_ptr
+#include <new>         // nothrow
 #include <type_traits>
 
 #ifdef CXON_USE_BOOST_CHARCONV
@@ -46,64 +48,113 @@ namespace cxon { namespace charconv { namespace imp {
 
     namespace {
 
-        template <typename T, typename F>
-            constexpr auto clamp_(F t) noexcept -> enable_if_t<sizeof(T) == sizeof(F), T> {
-                return t;
+        inline int digit_(char c) noexcept {
+            return  c >= '0' && c <= '9' ? c - '0' :
+                    c >= 'a' && c <= 'z' ? c - 'a' + 10 :
+                    c >= 'A' && c <= 'Z' ? c - 'A' + 10 :
+                    std::numeric_limits<int>::max()
+            ;
+        }
+
+        // the input is not necessarily null-terminated, nothing at or after last may be read
+        template <typename T>
+            inline from_chars_result number_from_chars_(const char* first, const char* last, T& value, int base) noexcept {
+                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
+                using U = unsigned long long;
+                const char* f = first;
+                bool const  n = std::is_signed<T>::value && f != last && *f == '-';
+                    if (n) ++f;
+                U const     m = n ? U(std::numeric_limits<T>::max()) + 1 : U(std::numeric_limits<T>::max());
+                U           v = 0;
+                bool        o = false;
+                const char*const d = f;
+                for ( ; f != last && digit_(*f) < base; ++f) {
+                    U const g = digit_(*f);
+                    if (o || v > (m - g) / base)
+                            o = true;
+                    else    v = v * base + g;
+                }
+                if (f == d) return { first, std::errc::invalid_argument };
+                if (o)      return { f, std::errc::result_out_of_range };
+                value = !n ? T(v) : v == m ? std::numeric_limits<T>::min() : T(-(long long)v);
+                return { f, std::errc{} };
             }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_signed<T>(), T> {
-                        if (f < std::numeric_limits<T>::min()) errno = ERANGE, f = std::numeric_limits<T>::min();
-                else    if (f > std::numeric_limits<T>::max()) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
+
+        inline const char* match_(const char* f, const char* l, const char* s) noexcept {
+            for ( ; *s; ++s, ++f)
+                if (f == l || (*f != *s && *f != *s - 'a' + 'A')) return nullptr;
+            return f;
+        }
+        inline const char* digits_(const char* f, const char* l) noexcept {
+            while (f != l && *f >= '0' && *f <= '9') ++f;
+            return f;
+        }
+        // returns the end of the token
+        inline const char* float_token_(const char* f, const char* l) noexcept {
+            if (f != l && *f == '-') ++f;
+            if (auto const i = match_(f, l, "inf")) {
+                auto const e = match_(i, l, "inity");
+                return e ? e : i;
             }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_unsigned<T>(), T> {
-                if (std::numeric_limits<T>::max() < f) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
+            if (auto const n = match_(f, l, "nan")) {
+                if (n != l && *n == '(') {
+                    auto e = n + 1;
+                    while (e != l && (digit_(*e) < 36 || *e == '_')) ++e;
+                    if (e != l && *e == ')') return e + 1;
+                }
+                return n;
             }
-
-        template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_signed<T>::value, bool> {
-                return c == '+';
+            auto e = digits_(f, l); auto d = e - f;
+            if (e != l && *e == '.') {
+                auto const r = digits_(e + 1, l);
+                d += r - (e + 1), e = r;
             }
-        template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_unsigned<T>::value, bool> {
-                return c == '+' || c == '-';
+                if (d == 0) return nullptr;
+            if (e != l && (*e == 'e' || *e == 'E')) {
+                auto x = e + 1;
+                    if (x != l && (*x == '+' || *x == '-')) ++x;
+                auto const r = digits_(x, l);
+                    if (r != x) e = r;
             }
+            return e;
+        }
 
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, int base) noexcept {
-                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = clamp_<T>(convert(first, &end, base));
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
-            }
-        template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, chars_format) noexcept {
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = convert(first, &end);
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value, chars_format) noexcept {
+                auto const l = float_token_(first, last);
+                    if (!l) return { first, std::errc::invalid_argument };
+                char buf[128]; std::unique_ptr<char[]> mem;
+                char* s = buf;
+                    if (std::size_t(l - first) >= sizeof(buf)) {
+                        mem.reset(new (std::nothrow) char[std::size_t(l - first) + 1]);
+                        if (!mem) return { first, std::errc::not_enough_memory };
+                        s = mem.get();
+                    }
+                *std::copy(first, l, s) = '\0';
+                errno = 0; T const v = convert(s, nullptr);
+                // a denormal result may set ERANGE
+                if (errno == ERANGE && (v == 0 || v == std::numeric_limits<T>::infinity() || v == -std::numeric_limits<T>::infinity()))
+                    return { l, std::errc::result_out_of_range };
+                return value = v, from_chars_result{ l, std::errc{} };
             }
 
     }
 
-#   define CXON_FROM_CHARS(T, C)\
+#   define CXON_FROM_CHARS(T)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, int base = 10) noexcept {\
-            return number_from_chars_(first, last, C, value, base);\
+            return number_from_chars_(first, last, value, base);\
         }
-        CXON_FROM_CHARS(char, strtol)
-        CXON_FROM_CHARS(signed char, strtol)
-        CXON_FROM_CHARS(unsigned char, strtoul)
-        CXON_FROM_CHARS(short, strtol)
-        CXON_FROM_CHARS(unsigned short, strtoul)
-        CXON_FROM_CHARS(int, strtol)
-        CXON_FROM_CHARS(unsigned int, strtoul)
-        CXON_FROM_CHARS(long, strtol)
-        CXON_FROM_CHARS(unsigned long, strtoul)
-        CXON_FROM_CHARS(long long, strtoll)
-        CXON_FROM_CHARS(unsigned long long, strtoull)
+        CXON_FROM_CHARS(char)
+        CXON_FROM_CHARS(signed char)
+        CXON_FROM_CHARS(unsigned char)
+        CXON_FROM_CHARS(short)
+        CXON_FROM_CHARS(unsigned short)
+        CXON_FROM_CHARS(int)
+        CXON_FROM_CHARS(unsigned int)
+        CXON_FROM_CHARS(long)
+        CXON_FROM_CHARS(unsigned long)
+        CXON_FROM_CHARS(long long)
+        CXON_FROM_CHARS(unsigned long long)
 #   undef CXON_FROM_CHARS
 #   define CXON_FROM_CHARS(T, C)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, chars_format fmt = chars_format::general) noexcept {\
@@ -132,7 +183,7 @@ namespace cxon { namespace charconv { namespace imp {
             inline auto itoa_(char* b, T t, int base) noexcept -> typename std::enable_if<std::is_signed<T>::value, unsigned>::type {
                 using U = typename std::make_unsigned<T>::type;
                 return t < 0 ?
-                    *b = '-', itoa_<U>(++b, -t, base) + 1 :
+                    *b = '-', itoa_<U>(++b, U(0) - U(t), base) + 1 :
                               itoa_<U>(  b,  t, base)
                 ;
             }
-- 
2.43.0


From 18f6a71eca1052f4978f5fd4ca6a745a5e6d4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 21/52] fix: a priority_queue read from CBOR is a heap

---
 src/cxon/lang/cbor/lib/std/queue.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/queue.hxx b/src/cxon/lang/cbor/lib/std/queue.hxx
index 67686fc..8ecdbce 100644
--- a/src/cxon/lang/cbor/lib/std/queue.hxx
+++ b/src/cxon/lang/cbor/lib/std/queue.hxx
@@ -32,8 +32,10 @@ namespace cxon {
         struct read<CBOR<X>, std::priority_queue<T, R...>> {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::priority_queue<T, R...>& t, II& i, II e, Cx& cx) {
-                    auto& c = cnt::container(t);
-                    return cbor::cnt::read_array<Y>(c, i, e, cx);
+                    typename std::priority_queue<T, R...>::container_type c; // the order of the elements may not be that of a heap
+                        if (!cbor::cnt::read_array<Y>(c, i, e, cx)) return false;
+                    for (auto& v : c) t.push(std::move(v));
+                    return true;
                 }
         };
 
-- 
2.43.0


From b1bc0cecce433b9591a92d4168dde37342b31291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 22/52] fix: CBOR byte and text strings can be read into
 character arrays from forward iterators

---
 src/cxon/lang/common/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..175b52c 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -343,7 +343,7 @@ namespace cxon { namespace cnt {
 
             template <typename II>
                 auto append(II f, II l) noexcept
-                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic push
-- 
2.43.0


From 110bc6ae7ec4ce04407a17eb4d818e3c22935713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 23/52] fix: skipping a value at the end of the JSON input does
 not read past it

---
 src/cxon/lang/common/cio/value.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..1b9e2be 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -35,6 +35,7 @@ namespace cxon { namespace cio { namespace val {
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
-- 
2.43.0


From 1c7cfb848dbc84bd398b20aa6bee9178d9687dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 24/52] fix: CBOR strings of many chunks are not reallocated
 for each chunk

---
 src/cxon/lang/cbor/common/container.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 96c9728..619c57d 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -150,7 +150,8 @@ namespace cxon { namespace cbor { namespace cnt {
                     for (auto b = bio::peek(i, e, 0); b != X::brk; b = bio::peek(i, e, 0)) {
                         if (m != (b & X::mjr))
                             return cx/cbor::read_error::array_invalid;
-                        if (!read_array_b_fix_<X>(t, i, e, cx))
+                        std::size_t n; // no reserve, it would reallocate for each chunk
+                        if (!read_size_le<X>(m, n, t.max_size() - size_(t), i, e, cx) || !read_bytes_<X>(t, n, i, e, cx))
                             return false;
                     }
                 return bio::get(i, e, 0), true;
-- 
2.43.0


From 867c4ddb27e52e7160e7ee8e7a6844798511de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 25/52] fix: smart pointers in CBOR hold a single value

---
 src/cxon/lang/cbor/lib/std/memory.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/memory.hxx b/src/cxon/lang/cbor/lib/std/memory.hxx
index 687964f..46d6c42 100644
--- a/src/cxon/lang/cbor/lib/std/memory.hxx
+++ b/src/cxon/lang/cbor/lib/std/memory.hxx
@@ -7,6 +7,7 @@
 #define CXON_CBOR_LIB_STD_MEMORY_HXX_
 
 #include "cxon/lang/common/allocator.hxx"
+#include "cxon/lang/cbor/compound.hxx"
 
 namespace cxon {
 
@@ -15,7 +16,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::unique_ptr<T, D>& t, II& i, II e, Cx& cx) {
                         T* p;
-                    return read_value<Y>(p, i, e, cx) && (t.reset(p), true);
+                    return cbor::imp::read_pointer_t_<Y>(p, i, e, cx) && (t.reset(p), true);
                 }
         };
 
@@ -34,9 +35,9 @@ namespace cxon {
                     auto al = alc::make_context_allocator<T>(cx);
                         T* p;
 #                   if __cplusplus < 201402L
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_pointer_t_<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
 #                   else
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_pointer_t_<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
 #                   endif
                 }
         };
-- 
2.43.0


From 5f3c88752cba3fbeb81533b2331459151aa0885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 26/52] fix: escaped keys of JSON objects are matched with the
 names of class fields

---
 src/cxon/lang/common/cio/string.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index c2acaf6..15e3fa8 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -160,6 +160,10 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         for ( ; i != e; ++i) {
+                            if (*i == '\\') { // escapes are not raw
+                                i = l;
+                                return string_read_tail_<unbind_traits_t<X, str::raw_traits>>(c, i, e, cx);
+                            }
                             if (delim_en_check<X>(*i)) {
                                 if (l == i || cxon::cnt::append(c, l, i))
                                     return delim_en_read<X>(i, e);
-- 
2.43.0


From 357e7630d0a47579063e26618ae959a464f7c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:37 +0000
Subject: [PATCH 27/52] fix: output ranges of char take the bytes of CBOR
 within their bounds

---
 src/cxon/lang/common/container.hxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 175b52c..1343376 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -356,9 +356,14 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic pop
 #                   endif
                 }
-            bool append(const value_type* t, std::size_t n) noexcept {
-                return append(t, t + n);
-            }
+            template <typename II>
+                auto append(II i, std::size_t n) noexcept
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
+                {
+                    return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
+                            (e_ = std::copy_n(i, n, e_), true)
+                    ;
+                }
 
             bool append(unsigned n, const value_type& t) noexcept {
                 return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
-- 
2.43.0


From 1b61e10193cd01f59a2cccd9b9b1a12e7b295f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:37 +0000
Subject: [PATCH 28/52] fix: a failed write of a valarray as CBOR does not go
 on

---
 src/cxon/lang/cbor/lib/std/valarray.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index d28b61d..28c0455 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -69,8 +69,9 @@ namespace cxon {
         struct write<CBOR<X>, std::valarray<T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const std::valarray<T>& t, Cx& cx) {
-                    return (t.size() && cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx)) ||
-                           (cbor::cnt::write_size<Y>(o, Y::arr, 0, cx))
+                    return t.size() ?
+                        cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx) :
+                        cbor::cnt::write_size<Y>(o, Y::arr, 0, cx)
                     ;
                 }
         };
-- 
2.43.0


From fae6b3eb1b8de6950008ab9c7c6513706ea65e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:37 +0000
Subject: [PATCH 29/52] fix: indenters keep the state of their output and
 report its failures

---
 src/cxon/lang/json/tidy.hxx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index c006265..86ce856 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -157,7 +157,9 @@ namespace cxon { namespace json {
                             case '}': case ']':
                                 break;
                             default:
-                                mut(stt::grn),   poke(o_, '\n') && poke(o_, lvl_, pad_);
+                                mut(stt::grn);
+                                if (!poke(o_, '\n') || !poke(o_, lvl_, pad_))
+                                    return false;
                         }
                         break;
                 }
@@ -207,22 +209,22 @@ namespace cxon { namespace json {
                 }
 
             bool append(const char* f, const char* l) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, f, l);
                 });
             }
             bool append(const char* s, std::size_t n) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s, n);
                 });
             }
             bool append(const char* s) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s);
                 });
             }
             bool append(unsigned n, char c) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, n, c);
                 });
             }
-- 
2.43.0


From 1df37a1e266b43f75cd54966afc5084c46a15471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 30/52] fix: static_vector read as JSON counts the elements it
 already has

---
 src/cxon/lang/json/lib/boost/container/static_vector.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/container/static_vector.hxx b/src/cxon/lang/json/lib/boost/container/static_vector.hxx
index 9bb0d8c..7a7e1d8 100644
--- a/src/cxon/lang/json/lib/boost/container/static_vector.hxx
+++ b/src/cxon/lang/json/lib/boost/container/static_vector.hxx
@@ -19,9 +19,8 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = JSON<X>>
                 static bool value(boost::container::static_vector<T, N>& t, II& i, II e, Cx& cx) {
                     II const o = i;
-                        std::size_t p = 0;
                     return cio::cnt::read_list<Y>(i, e, cx, [&] {
-                        if (++p <= N)
+                        if (t.size() < N)
                             return read_value<Y>(cnt::emplace(t), i, e, cx);
                         return cio::rewind(i, o), cx/json::read_error::overflow;
                     });
-- 
2.43.0


From 4eaf06d6e270567555a0e8b3ce59aacf9c53589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 31/52] fix: a bad comment between the fields of a class is an
 error

---
 src/cxon/lang/common/cio/class.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 396079c..ac8b6ca 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -325,7 +325,7 @@ namespace cxon { namespace cio { namespace cls {
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (cnt::consume_sep<X, typename X::map>(i, e, cx))
                             continue;
-                    return consume<X>(X::map::end, i, e, cx);
+                    return !cx.ec && consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
             }
-- 
2.43.0


From 545b90a4ae5be15b11329b7cb41526c77b05a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 32/52] fix: objects read into classes may end with a separator
 only if allowed

---
 src/cxon/lang/common/cio/class.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index ac8b6ca..1922042 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -323,8 +323,15 @@ namespace cxon { namespace cio { namespace cls {
                             return rewind(i, o), false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
-                        if (cnt::consume_sep<X, typename X::map>(i, e, cx))
+                        if (cnt::consume_sep<X, typename X::map>(i, e, cx)) {
+                            if (X::allow_trailing_separators || X::map::sep == ' ')
+                                continue;
+                            if (!consume<X>(i, e, cx))
+                                return false;
+                            if (peek(i, e) == X::map::end)
+                                return cx/X::read_error::unexpected;
                             continue;
+                        }
                     return !cx.ec && consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
-- 
2.43.0


From f79ce8eb84017f680672a5329deb111d978b0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:47 +0000
Subject: [PATCH 33/52] fix: skipped scalars of CXCF end at any white space and
 at the end of the input

---
 src/cxon/lang/common/cio/value.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 1b9e2be..2771640 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -95,9 +95,11 @@ namespace cxon { namespace cio { namespace val {
                                 if (*i == X::map::sep)      return true;
                                 CXON_IF_CONSTEXPR (X::list::sep != X::map::sep)
                                     if (*i == X::list::sep) return true;
+                                CXON_IF_CONSTEXPR (X::map::sep == ' ') // any white space separates
+                                    if (chr::is<X>::space(*i)) return true;
                                 CXON_POKE(o, *i);
                             }
-                            return false;
+                            return true;
                         }
 #               undef CXON_POKE
             };
-- 
2.43.0


From d258b05fb719e26fc1de9f6cd9d8a3763801b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:24 +0000
Subject: [PATCH 34/52] fix: comments and escapes in skipped values do not end
 them

---
 src/cxon/lang/common/cio/value.hxx | 31 +++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 2771640..5db6eb3 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -54,8 +54,13 @@ namespace cxon { namespace cio { namespace val {
                         static bool skip_cnt_(O& o, II& i, II e) {
                             if (!poke(o, *i)) return false;
                             unsigned r = 0;
-                            for (++i; i != e; ++i) {
-                                switch (*i) {
+                            for (char p = '\0', c; ++i != e; p = c) {
+                                if (is_comment_(p, c = *i)) {
+                                    if (!skip_comment_(o, i, e)) return false;
+                                    c = '\0';
+                                    continue;
+                                }
+                                switch (c) {
                                     case CB:                CXON_POKE(o, *i);
                                                             ++r; break;
                                     case CE:                CXON_POKE(o, *i);
@@ -63,11 +68,27 @@ namespace cxon { namespace cio { namespace val {
                                                             --r; break;
                                     case X::string::del:    if (!skip_s_(o, i, e)) return false;
                                                             break;
+                                    case '\\':              CXON_POKE(o, *i);
+                                                            if (++i == e) return false;
+                                                            CXON_POKE(o, *i); break;
                                     default:                CXON_POKE(o, *i);
                                 }
                             }
                             return false;
                         }
+                    static constexpr bool is_comment_(char p, char c) {
+                        return X::allow_comments && p == '/' && (c == '*' || c == '/');
+                    }
+                    template <typename O, typename II>
+                        static bool skip_comment_(O& o, II& i, II e) { // from its second character to its last one
+                            bool const b = *i == '*';
+                            CXON_POKE(o, *i);
+                            for (char p = '\0'; ++i != e; p = *i) {
+                                CXON_POKE(o, *i);
+                                if (b ? p == '*' && *i == '/' : *i == '\n') return true;
+                            }
+                            return false;
+                        }
                     template <typename O, typename II>
                         static bool skip_str_(O& o, II& i, II e) {
                             return skip_s_(o, i, e) && (++i, true);
@@ -88,7 +109,11 @@ namespace cxon { namespace cio { namespace val {
                         }
                     template <typename O, typename II>
                         static bool skip_scl_(O& o, II& i, II e) {
-                            for ( ; i != e; ++i) {
+                            for (char p = '\0'; i != e; p = *i, ++i) {
+                                if (is_comment_(p, *i)) {
+                                    bool const b = *i == '*';
+                                    return skip_comment_(o, i, e) ? (++i, true) : !b;
+                                }
                                 if (*i == X::map::end)      return true;
                                 CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                                     if (*i == X::list::end) return true;
-- 
2.43.0


From 90c0da28e14ec590640d3eddc987765c3b24245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:20 +0000
Subject: [PATCH 35/52] fix: CBOR: arrays of one-byte enumerations and classes
 are written as values, not as raw bytes

---
 src/cxon/lang/cbor/common/container.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 619c57d..4761d60 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -279,11 +279,14 @@ namespace cxon { namespace cbor { namespace cnt {
 
 namespace cxon { namespace cbor { namespace cnt {
 
-    namespace imp {
+    namespace imp { // one-byte integers are written as text or bytes, other one-byte types (e.g. enums) as values
+
+        template <typename T>
+            struct is_byte_ : bool_constant<sizeof(T) == 1 && std::is_integral<T>::value && !std::is_same<T, bool>::value> {};
 
         template <typename X, typename FI, typename O, typename Cx, typename T = typename std::iterator_traits<FI>::value_type>
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
-                -> enable_if_t<sizeof(T) == 1 && !std::is_same<T, bool>::value &&  is_char<T>::value, bool> 
+                -> enable_if_t<is_byte_<T>::value &&  is_char<T>::value, bool> 
             {
                 return  write_size<X>(o, X::tstr, std::distance(f, l), cx) &&
                         bio::poke<X>(o, f, l, cx)
@@ -291,7 +294,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename FI, typename O, typename Cx, typename T = typename std::iterator_traits<FI>::value_type>
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
-                -> enable_if_t<sizeof(T) == 1 && !std::is_same<T, bool>::value && !is_char<T>::value, bool>
+                -> enable_if_t<is_byte_<T>::value && !is_char<T>::value, bool>
             {
                 return  write_size<X>(o, X::bstr, std::distance(f, l), cx) &&
                         bio::poke<X>(o, f, l, cx)
@@ -299,7 +302,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename FI, typename O, typename Cx, typename T = typename std::iterator_traits<FI>::value_type>
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
-                -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
+                -> enable_if_t<!is_byte_<T>::value, bool>
             {
                 if (write_size<X>(o, X::arr, std::distance(f, l), cx))
                     for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
@@ -316,7 +319,7 @@ namespace cxon { namespace cbor { namespace cnt {
 
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
             inline auto write_array_(O& o, const C& t, Cx& cx)
-                -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
+                -> enable_if_t<!is_byte_<T>::value, bool>
             {
                 auto f = std::begin(t), l = std::end(t);
                 if (write_size<X>(o, X::arr, std::distance(f, l), cx))
@@ -325,7 +328,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
             inline auto write_array_(O& o, const C& t, Cx& cx)
-                -> enable_if_t<sizeof(T) == 1 && !std::is_same<T, bool>::value, bool>
+                -> enable_if_t< is_byte_<T>::value, bool>
             {
                 auto const r = cxon::cnt::continuous<C>::range(t);
                 return write_array<X>(o, r.first, r.second, cx);
-- 
2.43.0


From ae6da1fb1625ed916a0bca4727cc510bed833c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 36/52] fix: smart pointers to a character are written as the
 character, not as a C string

---
 src/cxon/lang/cbor/lib/std/memory.hxx | 24 ++++++++++++++++++++----
 src/cxon/lang/json/lib/std/memory.hxx | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/memory.hxx b/src/cxon/lang/cbor/lib/std/memory.hxx
index 46d6c42..05e40b1 100644
--- a/src/cxon/lang/cbor/lib/std/memory.hxx
+++ b/src/cxon/lang/cbor/lib/std/memory.hxx
@@ -22,10 +22,18 @@ namespace cxon {
 
     template <typename X, typename T, typename D>
         struct write<CBOR<X>, std::unique_ptr<T, D>, enable_if_t<!std::is_array<T>::value>> {
-            template <typename O, typename Cx, typename Y = CBOR<X>>
-                static bool value(O& o, const std::unique_ptr<T, D>& t, Cx& cx) {
+            template <typename O, typename Cx, typename U = T, typename Y = CBOR<X>>
+                static auto value(O& o, const std::unique_ptr<T, D>& t, Cx& cx)
+                    -> enable_if_t<!is_char<U>::value, bool>
+                {
                     return write_value<Y>(o, t.get(), cx);
                 }
+            template <typename O, typename Cx, typename U = T, typename Y = CBOR<X>> // a character, not a string
+                static auto value(O& o, const std::unique_ptr<T, D>& t, Cx& cx)
+                    -> enable_if_t< is_char<U>::value, bool>
+                {
+                    return t ? write_value<Y>(o, *t, cx) : write_value<Y>(o, nullptr, cx);
+                }
         };
 
     template <typename X, typename T>
@@ -44,10 +52,18 @@ namespace cxon {
 
     template <typename X, typename T>
         struct write<CBOR<X>, std::shared_ptr<T>, enable_if_t<!std::is_array<T>::value>> {
-            template <typename O, typename Cx, typename Y = CBOR<X>>
-                static bool value(O& o, const std::shared_ptr<T>& t, Cx& cx) {
+            template <typename O, typename Cx, typename U = T, typename Y = CBOR<X>>
+                static auto value(O& o, const std::shared_ptr<T>& t, Cx& cx)
+                    -> enable_if_t<!is_char<U>::value, bool>
+                {
                     return write_value<Y>(o, t.get(), cx);
                 }
+            template <typename O, typename Cx, typename U = T, typename Y = CBOR<X>> // a character, not a string
+                static auto value(O& o, const std::shared_ptr<T>& t, Cx& cx)
+                    -> enable_if_t< is_char<U>::value, bool>
+                {
+                    return t ? write_value<Y>(o, *t, cx) : write_value<Y>(o, nullptr, cx);
+                }
         };
 
 }
diff --git a/src/cxon/lang/json/lib/std/memory.hxx b/src/cxon/lang/json/lib/std/memory.hxx
index 08e9e62..704fb29 100644
--- a/src/cxon/lang/json/lib/std/memory.hxx
+++ b/src/cxon/lang/json/lib/std/memory.hxx
@@ -37,10 +37,18 @@ namespace cxon {
 
     template <typename X, typename T, typename D>
         struct write<JSON<X>, std::unique_ptr<T, D>, enable_if_t<!std::is_array<T>::value>> {
-            template <typename O, typename Cx, typename Y = JSON<X>>
-                static bool value(O& o, const std::unique_ptr<T, D>& t, Cx& cx) {
+            template <typename O, typename Cx, typename U = T, typename Y = JSON<X>>
+                static auto value(O& o, const std::unique_ptr<T, D>& t, Cx& cx)
+                    -> enable_if_t<!is_char<U>::value, bool>
+                {
                     return write_value<Y>(o, t.get(), cx);
                 }
+            template <typename O, typename Cx, typename U = T, typename Y = JSON<X>> // a character, not a string
+                static auto value(O& o, const std::unique_ptr<T, D>& t, Cx& cx)
+                    -> enable_if_t< is_char<U>::value, bool>
+                {
+                    return t ? write_value<Y>(o, *t, cx) : write_value<Y>(o, nullptr, cx);
+                }
         };
 
     template <typename X, typename T>
@@ -59,10 +67,18 @@ namespace cxon {
 
     template <typename X, typename T>
         struct write<JSON<X>, std::shared_ptr<T>, enable_if_t<!std::is_array<T>::value>> {
-            template <typename O, typename Cx, typename Y = JSON<X>>
-                static bool value(O& o, const std::shared_ptr<T>& t, Cx& cx) {
+            template <typename O, typename Cx, typename U = T, typename Y = JSON<X>>
+                static auto value(O& o, const std::shared_ptr<T>& t, Cx& cx)
+                    -> enable_if_t<!is_char<U>::value, bool>
+                {
                     return write_value<Y>(o, t.get(), cx);
                 }
+            template <typename O, typename Cx, typename U = T, typename Y = JSON<X>> // a character, not a string
+                static auto value(O& o, const std::shared_ptr<T>& t, Cx& cx)
+                    -> enable_if_t< is_char<U>::value, bool>
+                {
+                    return t ? write_value<Y>(o, *t, cx) : write_value<Y>(o, nullptr, cx);
+                }
         };
 
 }
-- 
2.43.0


From ff6a3805410a7bb5715a3fe7a0e5e3adcaafff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 37/52] fix: CBOR: an empty bitset has no byte of bits to read

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index 4f1dbb8..6d339cc 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -51,7 +51,9 @@ namespace cxon {
                             return cx/cbor::read_error::unexpected;
                         if (M * 8 - bio::byte(*i) != N)
                             return cx/cbor::read_error::size_invalid;
-                        if (++i == e)
+                        if (++i, N == 0)
+                            return true;
+                        if (i == e)
                             return cx/cbor::read_error::unexpected;
                         return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
-- 
2.43.0


From 94f15eef8aa639391d6b5b60bd3dfdd130568f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 38/52] fix: CBOR: sets of one-byte integers are written as
 arrays, the form that is read back

---
 src/cxon/lang/cbor/lib/std/imp/set.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/lib/std/imp/set.hxx b/src/cxon/lang/cbor/lib/std/imp/set.hxx
index 07551f4..f01538c 100644
--- a/src/cxon/lang/cbor/lib/std/imp/set.hxx
+++ b/src/cxon/lang/cbor/lib/std/imp/set.hxx
@@ -33,7 +33,10 @@ namespace cxon { namespace cbor { namespace imp {
         struct set_writer_ {
             template <typename O, typename Cx>
                 static bool value(O& o, const S& s, Cx& cx) {
-                    return cbor::cnt::write_array<X>(o, s, cx);
+                    auto f = s.begin(), l = s.end(); // as values, byte and text strings are not read as sets
+                    if (cbor::cnt::write_size<X>(o, X::arr, s.size(), cx))
+                        for ( ; f != l && cxon::cnt::element_write<X, S>(o, *f, cx); ++f) ;
+                    return f == l;
                 }
         };
 
-- 
2.43.0


From 0280519031a915492d70f366bb4d56879bbcc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 39/52] fix: keys and enumeration names that fill the key
 buffer are refused, names longer than the buffer are not compared past it

---
 src/cxon/lang/common/cio/class.hxx | 13 ++++++++-----
 src/cxon/lang/common/cio/enum.hxx  |  6 +++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 1922042..9bc9d13 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -9,6 +9,7 @@
 #include "cio.hxx"
 #include "key.hxx"
 #include "value.hxx"
+#include <cstring>
 #include <tuple>
 
 // interface ///////////////////////////////////////////////////////////////////
@@ -225,7 +226,7 @@ namespace cxon { namespace cio { namespace cls {
                         template <typename T, typename ...Fs, typename II, typename Cx>
                             static bool field(T& t, const char* name, const fields<Fs...>& fs, int (&st)[sizeof...(Fs)], II& i, II e, Cx& cx) {
                                 constexpr auto M = (L + R) / 2;
-                                int const c = std::char_traits<char>::compare(std::get<M>(fs).name, name, std::get<M>(fs).nale + 1);
+                                int const c = std::strcmp(std::get<M>(fs).name, name);
                                      if (c < 0) return read_ordered_<X, M + 1, R>::field(t, name, fs, st, i, e, cx);
                                 else if (c > 0) return read_ordered_<X, L, M - 1>::field(t, name, fs, st, i, e, cx);
                                 else            return field_<M>(t, fs, st, i, e, cx);
@@ -248,7 +249,7 @@ namespace cxon { namespace cio { namespace cls {
                             static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t< Y::assume_unique_object_keys, bool>
                             {
-                                return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return st[N] == 0 && std::strcmp(std::get<N>(fs).name, name) == 0 ?
                                     (st[N] = 1, read_field_<Y>(t, std::get<N>(fs), i, e, cx)) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
@@ -257,7 +258,7 @@ namespace cxon { namespace cio { namespace cls {
                             static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t<!Y::assume_unique_object_keys, bool>
                             {
-                                return std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return std::strcmp(std::get<N>(fs).name, name) == 0 ?
                                     read_field_<Y>(t, std::get<N>(fs), i, e, cx) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
@@ -319,9 +320,10 @@ namespace cxon { namespace cio { namespace cls {
                     if (peek(i, e) == X::map::end)
                         return ++i, true;
                     II const o = i;
+                        id[sizeof(id) - 1] = '\0';
                         if (!read_map_key<X>(id, i, e, cx))
                             return rewind(i, o), false;
-                        if (!read_field_<X>(t, id, fs, st, i, e, cx))
+                        if (id[sizeof(id) - 1] != '\0' || !read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (cnt::consume_sep<X, typename X::map>(i, e, cx)) {
                             if (X::allow_trailing_separators || X::map::sep == ' ')
@@ -347,9 +349,10 @@ namespace cxon { namespace cio { namespace cls {
                         std::fill_n(st, sizeof...(Fs), 0);
                 for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; i != e && *i; ) {
                     II const o = i;
+                        id[sizeof(id) - 1] = '\0';
                         if (!read_map_key<X>(id, i, e, cx))
                             return false;
-                        if (!read_field_<X>(t, id, fs, st, i, e, cx))
+                        if (id[sizeof(id) - 1] != '\0' || !read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (!consume<X>(i, e, cx))
                             return false;
diff --git a/src/cxon/lang/common/cio/enum.hxx b/src/cxon/lang/common/cio/enum.hxx
index cad694f..721f644 100644
--- a/src/cxon/lang/common/cio/enum.hxx
+++ b/src/cxon/lang/common/cio/enum.hxx
@@ -7,6 +7,7 @@
 #define CXON_CIO_ENUM_HXX_
 
 #include "cio.hxx"
+#include <cstring>
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -50,9 +51,12 @@ namespace cxon { namespace cio { namespace enm {
                 return false;
             II const o = i;
             char id[ids_len_max::constant<napa_type<Cx>>(64)];
+                id[sizeof(id) - 1] = '\0';
                 if (!cxon::read_value<X>(id, i, e, cx))
                     return false;
-            for ( ; f != l && std::char_traits<char>::compare(f->name, id, f->nale + 1) != 0; ++f)
+                if (id[sizeof(id) - 1] != '\0')
+                    return rewind(i, o), cx/X::read_error::unexpected;
+            for ( ; f != l && std::strcmp(f->name, id) != 0; ++f)
                 ;
             return  (f != l && (t = f->value, true)) ||
                     (rewind(i, o), cx/X::read_error::unexpected);
-- 
2.43.0


From baf1c09f58983ebbc4003b562ac1130d99e13277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 40/52] fix: nodes: assignment and swap are safe for a node's
 own elements and honour allocators, lists replace the value

---
 src/cxon/lang/cbor/node/node.hxx    |  34 ++--
 src/cxon/lang/common/node-value.hxx | 241 +++++++++++-----------------
 src/cxon/lang/json/node/node.hxx    |  36 +++--
 3 files changed, 130 insertions(+), 181 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 91b4d8a..cba8c4e 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -195,11 +195,11 @@ namespace cxon { namespace cbor { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible<basic_node>::value && std::is_empty<allocator_type>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
-#                   define CXON_CBOR_TYPE_DEF(T)    case node_kind::T: value::move_construct<T>(*this, std::move(o)); break
+#                   define CXON_CBOR_TYPE_DEF(T)    case node_kind::T: value::move_construct_with_allocator<T>(*this, std::move(o)); break
                         CXON_CBOR_TYPE_DEF(map);
                         CXON_CBOR_TYPE_DEF(array);
                         CXON_CBOR_TYPE_DEF(tag);
@@ -307,14 +307,14 @@ namespace cxon { namespace cbor { // node
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, std::move(v)); } \
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
-                    basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                    basic_node& operator =(T&& v)                       noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
+                                                                        { return value::assign<T>(*this, std::move(v)); } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
-                    basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                    basic_node& operator =(const T& v)                  noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
+                                                                        { return value::assign<T>(*this, v); }
                 CXON_CBOR_TYPE_DEF(map);
                 CXON_CBOR_TYPE_DEF(array);
                 CXON_CBOR_TYPE_DEF(tag);
@@ -331,12 +331,12 @@ namespace cxon { namespace cbor { // node
 
             // map if empty or array(s) of two elements, array otherwise
                 basic_node(std::initializer_list<basic_node> l)
-                :   kind_(node_kind::undefined)
+                :   basic_node()
                 {
                     *this = l;
                 }
                 basic_node(std::initializer_list<basic_node> l, const allocator_type& al)
-                :   kind_(node_kind::undefined), alloc_(al)
+                :   basic_node(al)
                 {
                     *this = l;
                 }
@@ -344,16 +344,20 @@ namespace cxon { namespace cbor { // node
                     bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
                         return e.template is<array>() && e.template get<array>().size() == 2;
                     });
+                    basic_node n(alloc_);
                     if (obj) {
-                        auto& o = imbue<map>();
+                        auto& o = n.template imbue<map>();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, {a[0], a[1]});
                         }
                     }
                     else
-                        imbue<array>() = l;
-                    return *this;
+                        n.template imbue<array>() = l;
+                    return obj ?
+                        value::replace<map>(*this, n) :
+                        value::replace<array>(*this, n)
+                    ;
                 }
 
             // literals
@@ -372,13 +376,13 @@ namespace cxon { namespace cbor { // node
                 public:
             // integrals
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t) noexcept
+                    basic_node(T t) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value)
                     {
                         value::construct<int_type_<T>>(*this, t);
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t, const allocator_type& al) noexcept
+                    basic_node(T t, const allocator_type& al) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value), alloc_(al)
                     {
                         value::construct<int_type_<T>>(*this, t);
@@ -451,8 +455,8 @@ namespace cxon { namespace cbor { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
-                    value::construct<T>(*this);
+                    reset();
+                    value::construct<T>(*this), kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 2ab8016..572ce50 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -33,6 +33,9 @@ namespace cxon { namespace value {
             inline N& move_assign(N& n, N&& o)
                 noexcept(noexcept(controller<N>::template move_assign<T>(n, std::forward<N>(o))));
 
+        template <typename T, typename N>
+            inline void move_construct_with_allocator(N& n, N&& o);
+
     // copy construct & assign
         template <typename T, typename N>
             inline void copy_construct(N& n, const N& o)
@@ -41,6 +44,14 @@ namespace cxon { namespace value {
             inline N& copy_assign(N& n, const N& o)
                 noexcept(noexcept(controller<N>::template copy_assign<T>(n, o)));
 
+    // assign a value, it may be part of the value of n
+        template <typename T, typename N, typename V>
+            inline N& assign(N& n, V&& v)
+                noexcept(controller<N>::template is_nothrow_constructible<T, V&&>::value);
+    // replace the value of n with the value of o, allocators are equal
+        template <typename T, typename N>
+            inline N& replace(N& n, N& o) noexcept;
+
     // construct & destruct
         template <typename T, typename N, typename ...A>
             inline void construct(N& n, A&&... t)
@@ -76,6 +87,7 @@ namespace cxon { namespace value {
         struct controller {
             template <typename T> using is_dynamic_type     = typename N::template is_dynamic_type_<T>;
             using allocator_type                            = typename N::allocator_type;
+            template <typename T> using kind                = typename N::template node_kind_<N, T>;
             using propagate_on_container_move_assignment    = typename std::allocator_traits<allocator_type>::propagate_on_container_move_assignment;
             using propagate_on_container_copy_assignment    = typename std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment;
             using propagate_on_container_swap               = typename std::allocator_traits<allocator_type>::propagate_on_container_swap;
@@ -116,75 +128,21 @@ namespace cxon { namespace value {
                     {
                         get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
                     }
-            // move assign
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        return n;
-                    }
+            // move construct with the allocator of n
                 template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            destruct<T>(n), n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        noexcept(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
+                    static void move_construct_with_allocator(N& n, N&& o) {
+                        n.alloc_ == o.alloc_ ? // TODO: likely
+                            move_construct<T>(n, std::move(o)) : copy_construct<T>(n, o)
+                        ;
                     }
+            // move assign
                 template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                construct<T>(n, std::move(get<T>(o)));
-                            else
-                                construct<T>(n, get<T>(o));
+                    static N& move_assign(N& n, N&& o) {
+                        if (propagate_on_container_move_assignment::value || n.alloc_ == o.alloc_) { // TODO: likely
+                            N t(std::move(o)); // o may be part of n
+                            return replace<T>(propagate_on_container_move_assignment(), n, t);
                         }
-                        return n;
+                        return replace<T>(std::false_type(), n, N(static_cast<const N&>(o), n.alloc_));
                     }
             // copy construct
                 template <typename T>
@@ -207,60 +165,34 @@ namespace cxon { namespace value {
                     }
             // copy assign
                 template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
+                    static N& copy_assign(N& n, const N& o) {
+                        return copy_assign_<T>(propagate_on_container_copy_assignment(), n, o);
                     }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
+                private:
+                    template <typename T>
+                        static N& copy_assign_(std::true_type, N& n, const N& o) {
+                            return replace<T>(std::true_type(), n, N(o, o.alloc_)); // o may be part of n
                         }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            construct<T>(n, get<T>(o));
+                    template <typename T>
+                        static N& copy_assign_(std::false_type, N& n, const N& o) {
+                            return replace<T>(std::false_type(), n, N(o, n.alloc_)); // o may be part of n
                         }
-                        return n;
-                    }
+                public:
+            // replace
+                // the value of n with the value of o, o is not part of n and if the allocator is not replaced too, then the allocators are equal
                 template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
+                    static N& replace(std::true_type, N& n, N& o) {
+                        n.reset(), n.alloc_ = std::move(o.alloc_);
+                        return move_construct<T>(n, std::move(o)), n.kind_ = kind<T>::value, n;
                     }
                 template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                    static N& replace(std::false_type, N& n, N& o) {
+                        n.reset();
+                        return move_construct<T>(n, std::move(o)), n.kind_ = kind<T>::value, n;
+                    }
+                template <typename T, typename P>
+                    static N& replace(P p, N& n, N&& o) {
+                        return replace<T>(p, n, o);
                     }
             // construct
                 template <typename T, typename ...A>
@@ -274,9 +206,15 @@ namespace cxon { namespace value {
                         -> enable_if_t< is_dynamic_type<T>::value>
                     {
                         using at = alc::rebind_t<allocator_type, T>;
-                        at    al(n.alloc_);
-                        get<T*>(n) = std::allocator_traits<at>::allocate(al, 1);
-                        alc::uninitialized_construct_using_allocator<T>(get<T*>(n), al, std::forward<A>(t)...);
+                        struct guard {
+                            at al;
+                            T* t;
+                            guard(const allocator_type& a) : al(a), t(std::allocator_traits<at>::allocate(al, 1)) {}
+                            ~guard() { if (t) std::allocator_traits<at>::deallocate(al, t, 1); }
+                        };
+                        guard g(n.alloc_);
+                        alc::uninitialized_construct_using_allocator<T>(g.t, g.al, std::forward<A>(t)...);
+                        get<T*>(n) = g.t, g.t = nullptr;
                     }
             // destruct
                 template <typename T>
@@ -304,51 +242,38 @@ namespace cxon { namespace value {
                         static void swap_(T& f, T& s) {
                             swap_(option<1>(), f, s);
                         }
-                    template <typename F, typename S>
-                        struct ndes_ {
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value &&  propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    auto a = std::move(f.alloc_);
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)), std::move(s.alloc_));
-                                    destruct<V>(s); construct<U>(s, std::move(t), std::move(a));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value && !propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)));
-                                    destruct<V>(s); construct<U>(s, std::move(t));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
-                    template <typename T>
-                        struct ndes_<T, T> {
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value &&  propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                    swap_(f.alloc_, s.alloc_);
-                                }
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
+                    template <typename F, typename S, typename P>
+                        static void swap_(P p, N& f, N& s) {
+                            N t(std::move(f));
+                            replace<S>(p, f, s);
+                            replace<F>(p, s, t);
+                        }
                 public:
 
                 template <typename F, typename S>
                     static void swap(N& f, N& s) {
-                        ndes_<F, S>::swap(f, s);
+                        if (&f == &s)
+                            return;
+                        if (propagate_on_container_swap::value || f.alloc_ == s.alloc_) // TODO: likely
+                            return swap_<F, S>(propagate_on_container_swap(), f, s);
+                        N   t(static_cast<const N&>(f), s.alloc_),
+                            u(static_cast<const N&>(s), f.alloc_);
+                        replace<S>(std::false_type(), f, u);
+                        replace<F>(std::false_type(), s, t);
                     }
 
             // exception specification
                 using dynamic_types = typename N::dynamic_types_;
                 using has_dynamic_types             = type_sequence_disjunction<N::template is_dynamic_type_, dynamic_types>;
 
+                // with another allocator, a value may have to be copied
                 template <typename T, typename ...A>
-                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value>;
+                    using is_nothrow_constructible_with_allocator = bool_constant<
+                        (std::is_empty<allocator_type>::value || std::is_trivially_copyable<T>::value) && std::is_nothrow_constructible<T, A...>::value
+                    >;
+
+                template <typename T, typename ...A>
+                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && is_nothrow_constructible_with_allocator<T, A&&...>::value>;
 
                 using is_nothrow_move_constructible = bool_constant<type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value>;
                 using is_nothrow_move_assignable    = bool_constant<
@@ -380,6 +305,10 @@ namespace cxon { namespace value {
             {
                 return controller<N>::template move_assign<T>(n, std::forward<N>(o));
             }
+        template <typename T, typename N>
+            inline void move_construct_with_allocator(N& n, N&& o) {
+                controller<N>::template move_construct_with_allocator<T>(n, std::forward<N>(o));
+            }
 
     // copy construct & assign
         template <typename T, typename N>
@@ -395,6 +324,18 @@ namespace cxon { namespace value {
                 return controller<N>::template copy_assign<T>(n, o);
             }
 
+    // assign & replace
+        template <typename T, typename N, typename V>
+            inline N& assign(N& n, V&& v)
+                noexcept(controller<N>::template is_nothrow_constructible<T, V&&>::value)
+            {
+                return controller<N>::template replace<T>(std::false_type(), n, N(std::forward<V>(v), n.get_allocator()));
+            }
+        template <typename T, typename N>
+            inline N& replace(N& n, N& o) noexcept {
+                return controller<N>::template replace<T>(std::false_type(), n, o);
+            }
+
     // construct & destruct
         template <typename T, typename N, typename ...A>
             inline void construct(N& n, A&&... t)
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5fca298..be33b00 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -160,11 +160,11 @@ namespace cxon { namespace json { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible<basic_node>::value && std::is_empty<allocator_type>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
-#                   define CXON_JSON_TYPE_DEF(T)    case node_kind::T: value::move_construct<T>(*this, std::move(o)); break
+#                   define CXON_JSON_TYPE_DEF(T)    case node_kind::T: value::move_construct_with_allocator<T>(*this, std::move(o)); break
                         CXON_JSON_TYPE_DEF(object);
                         CXON_JSON_TYPE_DEF(array);
                         CXON_JSON_TYPE_DEF(string);
@@ -251,14 +251,14 @@ namespace cxon { namespace json { // node
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, std::move(v)); } \
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
-                    basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                    basic_node& operator =(T&& v)                       noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
+                                                                        { return value::assign<T>(*this, std::move(v)); } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
-                    basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                    basic_node& operator =(const T& v)                  noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
+                                                                        { return value::assign<T>(*this, v); }
                 CXON_JSON_TYPE_DEF(object)
                 CXON_JSON_TYPE_DEF(array)
                 CXON_JSON_TYPE_DEF(string)
@@ -271,12 +271,12 @@ namespace cxon { namespace json { // node
 
             // object if empty or array(s) of two elements, array otherwise
                 basic_node(std::initializer_list<basic_node> l)
-                :   kind_(node_kind::null)
+                :   basic_node()
                 {
                     *this = l;
                 }
                 basic_node(std::initializer_list<basic_node> l, const allocator_type& al)
-                :   kind_(node_kind::null), alloc_(al)
+                :   basic_node(al)
                 {
                     *this = l;
                 }
@@ -284,16 +284,20 @@ namespace cxon { namespace json { // node
                     bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
                         return e.template is<array>() && e.template get<array>().size() == 2;
                     });
+                    basic_node n(alloc_);
                     if (obj) {
-                        auto& o = imbue<object>();
+                        auto& o = n.template imbue<object>();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, { a[0], a[1] });
                         }
                     }
                     else
-                        imbue<array>() = l;
-                    return *this;
+                        n.template imbue<array>() = l;
+                    return obj ?
+                        value::replace<object>(*this, n) :
+                        value::replace<array>(*this, n)
+                    ;
                 }
 
             // literals
@@ -312,19 +316,19 @@ namespace cxon { namespace json { // node
                 public:
             // integral
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t) noexcept
+                    basic_node(T t) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value)
                     {
                         value::construct<int_type_<T>>(*this, t);
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t, const allocator_type& al) noexcept
+                    basic_node(T t, const allocator_type& al) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value), alloc_(al)
                     {
                         value::construct<int_type_<T>>(*this, t);
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node& operator =(T t) noexcept {
+                    basic_node& operator =(T t) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>>::value) {
                         return imbue<int_type_<T>>() = t, *this;
                     }
             // std::nullptr_t
@@ -387,8 +391,8 @@ namespace cxon { namespace json { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
-                    value::construct<T>(*this);
+                    reset();
+                    value::construct<T>(*this), kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
-- 
2.43.0


From 8c127d5d98c4cc00922320c0e702bb434fcc1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 41/52] fix: equal unordered containers have equal hashes
 whatever the order of their elements

---
 src/cxon/lang/common/hash.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/hash.hxx b/src/cxon/lang/common/hash.hxx
index ca35cef..afc765c 100644
--- a/src/cxon/lang/common/hash.hxx
+++ b/src/cxon/lang/common/hash.hxx
@@ -55,8 +55,21 @@ namespace cxon {
         template <typename T>
             struct is_iterable_<T, void_t<typename T::const_iterator>>  : std::true_type {};
 
+        template <typename T, typename E = void_t<>>
+            struct is_unordered_                                        : std::false_type {};
+        template <typename T>
+            struct is_unordered_<T, void_t<typename T::hasher>>         : std::true_type {};
+
+        template <typename T>
+            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value &&  is_unordered_<T>::value, std::size_t> {
+                hash<typename T::value_type> hs;
+                std::size_t s = 0;
+                for (auto& v: t) // equal values may have their elements in different order
+                    s += make_hash(hs(v));
+                return s;
+            }
         template <typename T>
-            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value, std::size_t> {
+            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value && !is_unordered_<T>::value, std::size_t> {
                 hash<typename T::value_type> hs;
                 std::size_t s = 0;
                 for (auto& v: t)
-- 
2.43.0


From 4fcdd13cefb90a9bfc713b064c30cd3e50facc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 42/52] fix: nodes: != with null and undefined, characters are
 compared as they are stored

---
 src/cxon/lang/cbor/node/node.hxx | 20 ++++++++++++--------
 src/cxon/lang/json/node/node.hxx | 18 ++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index cba8c4e..799f256 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -592,45 +592,49 @@ namespace cxon { namespace cbor { // node
                     //CXON_JSON_DEF(sint)
                     template <typename U = sint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     template <typename U = sint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     //CXON_JSON_DEF(uint)
                     template <typename U = uint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     template <typename U = uint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     CXON_JSON_DEF(simple)
                     CXON_JSON_DEF(boolean)
                     //CXON_JSON_DEF(null)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
                     friend bool operator ==(null, const basic_node& n) noexcept { return  n.is<null>(); }
+                    friend bool operator !=(const basic_node& n, null) noexcept { return !n.is<null>(); }
+                    friend bool operator !=(null, const basic_node& n) noexcept { return !n.is<null>(); }
                     //CXON_JSON_DEF(undefined)
                     friend bool operator ==(const basic_node& n, undefined) noexcept { return  n.is<undefined>(); }
                     friend bool operator ==(undefined, const basic_node& n) noexcept { return  n.is<undefined>(); }
+                    friend bool operator !=(const basic_node& n, undefined) noexcept { return !n.is<undefined>(); }
+                    friend bool operator !=(undefined, const basic_node& n) noexcept { return !n.is<undefined>(); }
 #               undef CXON_JSON_DEF
         };
 
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index be33b00..5c42cec 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -514,40 +514,42 @@ namespace cxon { namespace json { // node
                     //CXON_JSON_DEF(sint)
                     template <typename U = sint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     template <typename U = sint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     //CXON_JSON_DEF(uint)
                     template <typename U = uint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     template <typename U = uint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     CXON_JSON_DEF(boolean)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
                     friend bool operator ==(null, const basic_node& n) noexcept { return  n.is<null>(); }
+                    friend bool operator !=(const basic_node& n, null) noexcept { return !n.is<null>(); }
+                    friend bool operator !=(null, const basic_node& n) noexcept { return !n.is<null>(); }
 #               undef CXON_JSON_DEF
         };
 
-- 
2.43.0


From c5f5df141355650028b0e666a875d895920b79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 43/52] fix: nodes: null and undefined listed as dynamic types
 are kept in place, no pointer is ever made for them

---
 src/cxon/lang/cbor/node/node.hxx | 8 ++++++--
 src/cxon/lang/json/node/node.hxx | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 799f256..418f984 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -115,8 +115,12 @@ namespace cxon { namespace cbor { // node
                 template <typename N> struct node_kind_<N, typename N::undefined>   : std::integral_constant<node_kind, node_kind::undefined>   {};
 
                 template <typename T>
-                    using is_dynamic_type_ = scalar_sequence_contains<
-                        typename Tr::dynamic_types, node_kind_<basic_node, typename std::remove_pointer<T>::type>::value
+                    using is_dynamic_type_ = bool_constant< // null and undefined are always in place
+                        scalar_sequence_contains<
+                            typename Tr::dynamic_types, node_kind_<basic_node, typename std::remove_pointer<T>::type>::value
+                        >::value
+                        && node_kind_<basic_node, typename std::remove_pointer<T>::type>::value != node_kind::null
+                        && node_kind_<basic_node, typename std::remove_pointer<T>::type>::value != node_kind::undefined
                     >;
                 template <typename T>
                     using dt_       = conditional_t<is_dynamic_type_<T>::value, T*, T>;
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5c42cec..5f80d50 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -93,8 +93,11 @@ namespace cxon { namespace json { // node
                 template <typename N> struct node_kind_<N, typename N::null>    : std::integral_constant<node_kind, node_kind::null>    {};
 
                 template <typename T>
-                    using is_dynamic_type_ = scalar_sequence_contains<
-                        typename Tr::dynamic_types, node_kind_<basic_node, typename std::remove_pointer<T>::type>::value
+                    using is_dynamic_type_ = bool_constant< // null is always in place
+                        scalar_sequence_contains<
+                            typename Tr::dynamic_types, node_kind_<basic_node, typename std::remove_pointer<T>::type>::value
+                        >::value
+                        && node_kind_<basic_node, typename std::remove_pointer<T>::type>::value != node_kind::null
                     >;
                 template <typename T>
                     using dt_   = conditional_t<is_dynamic_type_<T>::value, T*, T>;
-- 
2.43.0


From 32b020899da23480ffab7f2692cdb5817ff29ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 44/52] fix: memory is not released if an exception is thrown
 while reading to a pointer

---
 src/cxon/lang/cbor/compound.hxx    |  8 ++---
 src/cxon/lang/common/allocator.hxx | 49 +++++++++++++++++++++++-------
 src/cxon/lang/common/container.hxx |  5 +--
 src/cxon/lang/json/compound.hxx    |  8 ++---
 4 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index dd3c38c..dd8fc42 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -45,10 +45,10 @@ namespace cxon { // pointer/read
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
                 auto al = alc::make_context_allocator<T>(cx);
-                T *const v = al.create();
-                    if (!v || !read_value<X>(*v, i, e, cx))
-                        return al.release(v), false;
-                return t = v, true;
+                auto v = al.own(al.create()); // released also if the read throws
+                    if (!v.get() || !read_value<X>(*v.get(), i, e, cx))
+                        return false;
+                return t = v.take(), true;
             }
 
         template <typename X, typename T, typename II, typename Cx>
diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index 78269e1..bf37283 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -205,27 +205,47 @@ namespace cxon { namespace alc {
 
             basic_allocator(const type& al) : al_(al) {}
 
+            struct owner { // releases what it holds, unless taken
+                owner(basic_allocator& al, T* p, std::size_t n, std::size_t c)
+                :   al_(al), p_(p), n_(n), c_(c) {}
+                owner(owner&& o) noexcept
+                :   al_(o.al_), p_(o.take()), n_(o.n_), c_(o.c_) {}
+                ~owner() { if (p_) al_.release_(p_, n_, c_); }
+
+                owner(const owner&) = delete;
+                owner& operator =(const owner&) = delete;
+
+                T* get() const noexcept { return p_; }
+                T* take() noexcept      { T *const p = p_; return p_ = nullptr, p; }
+
+                private:
+                    friend struct basic_allocator;
+                    basic_allocator& al_;
+                    T *p_;
+                    std::size_t n_, c_; // allocated, constructed
+            };
+
+            owner own(T* t)                 { return owner(*this, t, 1, 1); }
+            owner own(T* p, std::size_t n)  { return owner(*this, p, n, n); }
+
             template <typename ...A>
                 T* create(A&&... as) {
-                    auto t = tr::allocate(al_, 1);
-                    return t ? construct(t, std::forward<A>(as)...), t : t;
+                    auto t = owner(*this, tr::allocate(al_, 1), 1, 0);
+                        if (t.p_) construct(t.p_, std::forward<A>(as)...);
+                    return t.take();
                 }
             T* create(std::size_t n) {
-                auto p = tr::allocate(al_, n);
-                    if (p) for (T *t = p, *te = t + n; t != te; ++t)
-                        construct(t);
-                return p;
+                auto p = owner(*this, tr::allocate(al_, n), n, 0);
+                    if (p.p_) for ( ; p.c_ != n; ++p.c_)
+                        construct(p.p_ + p.c_);
+                return p.take();
             }
 
             void release(T* t) {
                 if (t) destroy(t), tr::deallocate(al_, t, 1);
             }
             void release(T* p, std::size_t n) {
-                if (p) {
-                    for (T *t = p, *te = t + n; t != te; ++t)
-                        destroy(t);
-                    tr::deallocate(al_, p, n);
-                }
+                if (p) release_(p, n, n);
             }
 
             template <typename U = T, typename ...A> auto construct(U *u, A&&... as)
@@ -238,6 +258,13 @@ namespace cxon { namespace alc {
             template <typename U = T> auto destroy(U *)
                 -> enable_if_t< std::is_trivial<U>::value> {}
 
+            private:
+                void release_(T* p, std::size_t n, std::size_t c) {
+                    for (T *t = p, *te = t + c; t != te; ++t)
+                        destroy(t);
+                    tr::deallocate(al_, p, n);
+                }
+
             private:
                 using tr = std::allocator_traits<type>;
                 type al_;
diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 1343376..fb00efa 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -428,9 +428,10 @@ namespace cxon { namespace cnt {
                     
                 void resize(std::size_t n) {
                     CXON_ASSERT(n != 0 && n >= std::size_t(e_ - f_), "unexpected");
-                    auto const p = a_.create(n);
-                        std::move(f_, e_, p);
+                    auto o = a_.own(a_.create(n), n);
+                        std::move(f_, e_, o.get());
                         a_.release(f_, l_ - f_);
+                    pointer const p = o.take();
                     e_ = p + (e_ - f_), l_ = p + n, f_ = p;
                 }
 
diff --git a/src/cxon/lang/json/compound.hxx b/src/cxon/lang/json/compound.hxx
index 460a832..a2ab099 100644
--- a/src/cxon/lang/json/compound.hxx
+++ b/src/cxon/lang/json/compound.hxx
@@ -31,10 +31,10 @@ namespace cxon { // pointer
                         ;
                     }
                     auto al = alc::make_context_allocator<T>(cx);
-                    T *const n = al.create();
-                        if (!read_value<Y>(*n, i, e, cx))
-                            return al.release(n), false;
-                    return t = n, true;
+                    auto n = al.own(al.create()); // released also if the read throws
+                        if (!read_value<Y>(*n.get(), i, e, cx))
+                            return false;
+                    return t = n.take(), true;
                 }
         };
     template <typename X, typename T>
-- 
2.43.0


From 385a38a7630e6827e9e0bc99f9a141120d505ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 45/52] fix: std::valarray is left invalid if an allocation
 fails while reading to it

---
 src/cxon/lang/cbor/lib/std/valarray.hxx |  2 +-
 src/cxon/lang/json/lib/std/valarray.hxx | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index 28c0455..c3ed989 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -31,7 +31,7 @@ namespace cxon {
                 void push_back(value_type&& t)      { grow(), a_[i_++] = std::move(t); }
 
                 void reserve(std::size_t n)         { n > a_.size() ? grow(n) : void(); }
-                void fit()                          { if (i_ != a_.size()) { std::valarray<T> const a = a_; a_ = a[std::slice(0, i_, 1)]; } }
+                void fit()                          { if (i_ != a_.size()) a_ = std::valarray<T>(a_[std::slice(0, i_, 1)]); }
 
                 private:
                     void grow()                     { i_ == a_.size() ? grow(a_.size() + 1) : void(); }
diff --git a/src/cxon/lang/json/lib/std/valarray.hxx b/src/cxon/lang/json/lib/std/valarray.hxx
index a9970c4..3a01197 100644
--- a/src/cxon/lang/json/lib/std/valarray.hxx
+++ b/src/cxon/lang/json/lib/std/valarray.hxx
@@ -22,16 +22,16 @@ namespace cxon {
                     std::size_t p = 0;
                     bool const r = cio::cnt::read_list<Y>(i, e, cx, [&] {
                         if (p >= v.size()) {
-                            std::valarray<T> n(std::move(v));
-                            v.resize(p + p);
-                                for (std::size_t i = 0; i != p; ++i) v[i] = n[i];
+                            std::valarray<T> n(p + p);
+                                for (std::size_t i = 0; i != p; ++i) n[i] = v[i];
+                            v = std::move(n); // resize would lose the value if it fails
                         }
                         return read_value<Y>(v[p], i, e, cx) && (++p, true);
                     });
                         if (!r) return false;
-                    t.resize(p);
-                        for (std::size_t j = 0; j != p; ++j) t[j] = v[j];
-                    return true;
+                    std::valarray<T> n(p);
+                        for (std::size_t j = 0; j != p; ++j) n[j] = v[j];
+                    return t = std::move(n), true;
                 }
         };
 
-- 
2.43.0


From 36e8645c4fabfdf715644af3f3694037460f3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 46/52] fix: node: noexcept of the construction of values with
 allocator

---
 src/cxon/lang/common/node-value.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 572ce50..9d40db6 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -196,7 +196,7 @@ namespace cxon { namespace value {
                     }
             // construct
                 template <typename T, typename ...A>
-                    static auto construct(N& n, A&&... t) noexcept(std::is_nothrow_constructible<T, A&&...>::value)
+                    static auto construct(N& n, A&&... t) noexcept(is_nothrow_constructible_with_allocator<T, A&&...>::value)
                         ->  enable_if_t<!is_dynamic_type<T>::value>
                     {
                         alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::forward<A>(t)...);
-- 
2.43.0


From 9e8464916f7587b49585e20502e34897e56de61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 47/52] fix: map keys are copied and lose their allocator when
 read

---
 src/cxon/lang/common/container.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index fb00efa..f8a8bd3 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -172,7 +172,9 @@ namespace cxon { namespace cnt {
             struct using_allocator_of_<std::pair<F, S>> {
                 template <typename C, typename ...A>
                     static auto emplace(C& c, A&&... as) -> std::pair<F, S>& {
-                        return emplace_(option<5>(), c, alc::create_using_allocator_of<std::pair<F, S>>(c, std::forward<A>(as)...));
+                        // the key of the pair should not be const, otherwise, it is copied, possibly with another allocator
+                        using pair = std::pair<typename std::remove_const<F>::type, S>;
+                        return emplace_(option<5>(), c, alc::create_using_allocator_of<pair>(c, std::forward<A>(as)...));
                     }
             };
 
-- 
2.43.0


From bc41687465716a72faef14711e975f438ba15563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 48/52] fix: cbor::node: the value of a tag does not use the
 allocator of the node

---
 src/cxon/lang/cbor/node/node.hxx | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 418f984..6a2a3d7 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -692,6 +692,32 @@ namespace cxon { namespace cbor { // helpers
             {
             }
 
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al)
+                :   tag(-1), value(alc::create_using_allocator<T>(al))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, N n, T&& t)
+                :   tag(n), value(alc::create_using_allocator<T>(al, std::move(t)))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, N n, const T& t)
+                :   tag(n), value(alc::create_using_allocator<T>(al, t))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, taggle&& t)
+                :   tag(t.tag), value(alc::create_using_allocator<T>(al, std::move(t.value)))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, const taggle& t)
+                :   tag(t.tag), value(alc::create_using_allocator<T>(al, t.value))
+                {
+                }
+
             ~taggle() = default;
 
             taggle(taggle&& t) noexcept(std::is_nothrow_move_constructible<T>::value)
-- 
2.43.0


From c8c4287265788596c48354ae936c9cad9fc80b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:45 +0000
Subject: [PATCH 49/52] fix: keys that are pairs and have to be created with
 allocator

---
 src/cxon/lang/common/allocator.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index bf37283..5dec49e 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -159,6 +159,14 @@ namespace cxon { namespace alc {
                             using_allocator_<S>::create(al, std::forward<AS>(as))
                         );
                     }
+                template <typename Al>
+                    static constexpr std::pair<F, S> create(const Al& al, std::pair<F, S>&& p) {
+                        return create(al, std::move(p.first), std::move(p.second));
+                    }
+                template <typename Al>
+                    static constexpr std::pair<F, S> create(const Al& al, const std::pair<F, S>& p) {
+                        return create(al, p.first, p.second);
+                    }
                 template <typename T, typename Al, typename Tp, std::size_t ...I>
                     static constexpr T create_with_(const Al& al, Tp&& tp, index_sequence<I...>) {
                         return using_allocator_<T>::create(al, std::forward<typename std::tuple_element<I, Tp>::type>(std::get<I>(tp))...);
-- 
2.43.0


From 4bb588c1ee406d871dd32ef03dddb94d04699d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:45 +0000
Subject: [PATCH 50/52] fix: a stray '/' is accepted after a comment

---
 src/cxon/lang/common/cio/io.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 5b00151..116bde9 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -115,8 +115,7 @@ namespace cxon { namespace cio { // input
             }
         template <typename X, typename II>
             inline auto consume_(II& i, II e) -> enable_if_t< X::allow_comments, bool> {
-                consume_ws_<X>(i, e);
-                if (peek(i, e) == '/') {
+                for (consume_ws_<X>(i, e); peek(i, e) == '/'; consume_ws_<X>(i, e)) {
                     switch (next(i, e)) {
                         case '*':
                             for (++i; i != e; )
@@ -130,7 +129,6 @@ namespace cxon { namespace cio { // input
                         default:
                             return false;
                     }
-                    consume_<X>(i, e);
                 }
                 return true;
             }
-- 
2.43.0


From 770b03570b526f872722b34b76e98d6bda521935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 51/52] fix: allow_trailing_separators does not compile with
 space for a separator

---
 src/cxon/lang/common/cio/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/container.hxx b/src/cxon/lang/common/cio/container.hxx
index 6702732..24c770a 100644
--- a/src/cxon/lang/common/cio/container.hxx
+++ b/src/cxon/lang/common/cio/container.hxx
@@ -55,7 +55,7 @@ namespace cxon { namespace cio { namespace cnt {
                 while (element_add() && consume_sep<X, Cr>(i, e, cx)) ;
             }
         template <typename X, typename Cr, typename II, typename Cx, typename EA>
-            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators> {
+            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators && Cr::sep != ' '> {
                 // expects non-empty list
                 while (element_add() && consume_sep<X, Cr>(i, e, cx) && (consume<X>(i, e, cx) && peek(i, e) != Cr::end)) ;
             }
-- 
2.43.0


From 79e55834bc03e1cfeaf1a99bf12945eb874b215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 52/52] fix: trailing separators are not accepted for pairs,
 tuples and variants

---
 src/cxon/lang/common/cio/cio.hxx          | 10 ++++++++++
 src/cxon/lang/json/lib/boost/variant.hxx  |  2 +-
 src/cxon/lang/json/lib/boost/variant2.hxx |  2 +-
 src/cxon/lang/json/lib/std/complex.hxx    |  2 +-
 src/cxon/lang/json/lib/std/tuple.hxx      |  2 +-
 src/cxon/lang/json/lib/std/utility.hxx    |  2 +-
 src/cxon/lang/json/lib/std/variant.hxx    |  2 +-
 7 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/cio.hxx b/src/cxon/lang/common/cio/cio.hxx
index e535e37..46f892f 100644
--- a/src/cxon/lang/common/cio/cio.hxx
+++ b/src/cxon/lang/common/cio/cio.hxx
@@ -188,6 +188,16 @@ namespace cxon { namespace cio { namespace cnt {
             return consume<X>(i, e, cx) && peek(i, e) != Cr::end;
         }
 
+    // the end of an object or an array with a fixed number of elements, possibly after a trailing separator
+    template <typename X, typename Cr, typename II, typename Cx>
+        inline bool consume_end(II& i, II e, Cx& cx) {
+            CXON_IF_CONSTEXPR (X::allow_trailing_separators && Cr::sep != ' ') {
+                if (!consume<X>(i, e, cx)) return false;
+                consume<X>(Cr::sep, i, e);
+            }
+            return consume<X>(Cr::end, i, e, cx);
+        }
+
 }}}
 
 #endif // CXON_CIO_HXX_
diff --git a/src/cxon/lang/json/lib/boost/variant.hxx b/src/cxon/lang/json/lib/boost/variant.hxx
index ce19040..8b11d5b 100644
--- a/src/cxon/lang/json/lib/boost/variant.hxx
+++ b/src/cxon/lang/json/lib/boost/variant.hxx
@@ -60,7 +60,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, II, Cx, T...>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename II, typename Cx, typename ...T>
diff --git a/src/cxon/lang/json/lib/boost/variant2.hxx b/src/cxon/lang/json/lib/boost/variant2.hxx
index 26cae2d..6a8f06f 100644
--- a/src/cxon/lang/json/lib/boost/variant2.hxx
+++ b/src/cxon/lang/json/lib/boost/variant2.hxx
@@ -57,7 +57,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, V, II, Cx>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
diff --git a/src/cxon/lang/json/lib/std/complex.hxx b/src/cxon/lang/json/lib/std/complex.hxx
index a9a404e..93e9476 100644
--- a/src/cxon/lang/json/lib/std/complex.hxx
+++ b/src/cxon/lang/json/lib/std/complex.hxx
@@ -21,7 +21,7 @@ namespace cxon {
                                 read_value<Y>(rl, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx) &&
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx) &&
                         (t.real(rl), t.imag(mg), true)
                     ;
                 }
diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 239b4a9..036072c 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -78,7 +78,7 @@ namespace cxon {
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 cio::cnt::read_tuple<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 151fa27..0b7215d 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -20,7 +20,7 @@ namespace cxon {
                                 read_value<Y>(t.first, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/variant.hxx b/src/cxon/lang/json/lib/std/variant.hxx
index f5898b5..8ede4b1 100644
--- a/src/cxon/lang/json/lib/std/variant.hxx
+++ b/src/cxon/lang/json/lib/std/variant.hxx
@@ -54,7 +54,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             variant_<X, V, II, Cx>::read(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
-- 
2.43.0

