From bbb6e0234a6c40d70f5be7fcd2abfea511bc6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 1/9] fix: symbol_code::is_valid must reject codes longer than
 7 letters

---
 include/eosio/symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/symbol.hpp b/include/eosio/symbol.hpp
index e33dd3e..411f4be 100644
--- a/include/eosio/symbol.hpp
+++ b/include/eosio/symbol.hpp
@@ -86,7 +86,7 @@ class symbol_code {
             } while (i < 7);
          }
       }
-      return true;
+      return sym == 0;
    }
 
    /**
-- 
2.43.0


From 37ce3f69dcb2c0911621acffedb0f40efd82627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 2/9] fix: base58 decoding must reject the NUL character

---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 012ebd23eb3e38fe4719130bfe83fe1ebf8e5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 3/9] fix: string_to_symbol must reject a precision above 255

---
 include/eosio/chain_conversions.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..c694577 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -367,10 +367,12 @@ inline std::string symbol_code_to_string(uint64_t v) {
 }
 
 [[nodiscard]] inline bool string_to_symbol(uint64_t& result, const char*& pos, const char* end, bool require_end) {
-   uint8_t precision = 0;
-   bool    found     = false;
+   uint32_t precision = 0;
+   bool     found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
       precision = precision * 10 + (*pos - '0');
+      if (precision > 255)
+         return false;
       found     = true;
       ++pos;
    }
-- 
2.43.0


From 3a9bad1eec2cd4761924735711838ee227a0392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 4/9] fix: string_to_asset must reject amounts and precisions
 that do not fit

---
 include/eosio/chain_conversions.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index c694577..16b925f 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -2,6 +2,7 @@
 
 #include "stream.hpp"
 #include <chrono>
+#include <limits>
 #include <stdint.h>
 #include <string>
 #include <string_view>
@@ -391,7 +392,6 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
@@ -401,12 +401,23 @@ inline std::string symbol_to_string(uint64_t v) {
       ++s;
       negative = true;
    }
-   while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+   // magnitude of the most negative amount is one more than the most positive
+   const uint64_t limit     = uint64_t(std::numeric_limits<int64_t>::max()) + negative;
+   auto           add_digit = [&](uint64_t digit) {
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
+   while (s != end && *s >= '0' && *s <= '9') {
+      if (!add_digit(*s++ - '0'))
+         return false;
+   }
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (precision == 255 || !add_digit(*s++ - '0'))
+            return false;
          ++precision;
       }
    }
-- 
2.43.0


From 11274e857a42d63ee0b0d4b1892b4dc259818219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 5/9] fix: asset_to_string must not negate the most negative
 amount as signed

---
 include/eosio/chain_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 16b925f..f8f1767 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -439,7 +439,7 @@ inline std::string asset_to_string(int64_t amount, uint64_t symbol) {
    std::string result;
    uint64_t    uamount;
    if (amount < 0)
-      uamount = -amount;
+      uamount = -uint64_t(amount);
    else
       uamount = amount;
    uint8_t precision = symbol;
-- 
2.43.0


From c87593cd6baa71c283a830d44d15948e1518a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 6/9] fix: decoding a set, map, list or deque replaces the old
 contents

---
 include/eosio/from_bin.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..534c44e 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -58,6 +58,7 @@ template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       typename T::value_type elem;
       from_bin(elem, stream);
@@ -69,6 +70,7 @@ template <typename T, typename S>
 void from_bin_sequence(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       v.emplace_back();
       from_bin(v.back(), stream);
@@ -124,6 +126,7 @@ template <typename T, typename U, typename S>
 void from_bin(std::map<T, U>& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       std::pair<T, U> elem;
       from_bin(elem, stream);
-- 
2.43.0


From 40f29d4b0f27b01cf08bdafdc0161c6b4d2bdf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:11 +0000
Subject: [PATCH 7/9] fix: to_json of strings with a run of 2^31 or more plain
 characters

stream_adaptor took the remaining length as an int, so a run of 2 GiB or
more became negative and memcpy was called with a huge size.
---
 include/eosio/to_json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/to_json.hpp b/include/eosio/to_json.hpp
index 3c62ef9..f280c78 100644
--- a/include/eosio/to_json.hpp
+++ b/include/eosio/to_json.hpp
@@ -16,8 +16,8 @@ inline constexpr char hex_digits[] = "0123456789ABCDEF";
 
 // Adaptors for rapidjson
 struct stream_adaptor {
-   stream_adaptor(const char* src, int sz) {
-      int chars = std::min(sz, 4);
+   stream_adaptor(const char* src, std::size_t sz) {
+      std::size_t chars = std::min<std::size_t>(sz, 4);
       memcpy(buf, src, chars);
       memset(buf + chars, 0, 4 - chars);
    }
-- 
2.43.0


From 5f968646b5a8d30cfb854a01724556bd8a8384eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:09 +0000
Subject: [PATCH 8/9] fix: reading a JSON array replaces the old contents of
 the vector

from_json appended to whatever the vector held, so reading into a
non-empty object, or an object with a repeated member, mixed old and new
elements.
---
 include/eosio/from_json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..673aec3 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -540,6 +540,7 @@ void from_json(bool& result, S& stream) {
 template <typename T, typename S>
 void from_json(std::vector<T>& result, S& stream) {
    stream.get_start_array();
+   result.clear();
    while (true) {
       auto t = stream.peek_token();
       if (t.get().type == json_token_type::type_end_array)
-- 
2.43.0


From 8b9b05d56febe6442f428d974538e7a4f19429c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:21 +0000
Subject: [PATCH 9/9] fix: reading a date outside 32-bit seconds must not wrap

---
 include/eosio/chain_conversions.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index f8f1767..4a661bc 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -264,7 +264,8 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return result;
 }
 
-[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+template <typename T> // uint32_t, or int64_t for any date
+[[nodiscard]] inline bool string_to_utc_seconds(T& result, const char*& s, const char* end, bool eat_fractional,
                                                 bool require_end) {
    auto parse_uint = [&](uint32_t& result, int digits) {
       result = 0;
@@ -299,7 +300,10 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   int64_t seconds = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400ll + h * 3600 + min * 60 + sec;
+   result = static_cast<T>(seconds);
+   if (static_cast<int64_t>(result) != seconds)
+      return false;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
@@ -313,10 +317,10 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
 
 [[nodiscard]] inline bool string_to_utc_microseconds(uint64_t& result, const char*& s, const char* end,
                                                      bool require_end) {
-   uint32_t sec;
+   int64_t sec;
    if (!string_to_utc_seconds(sec, s, end, false, false))
       return false;
-   result = sec * 1000000ull;
+   result = static_cast<uint64_t>(sec) * 1000000ull;
    if (s == end)
       return true;
    if (*s != '.')
-- 
2.43.0

