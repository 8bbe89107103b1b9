#include "vp.hpp"
#include "text_spec.hpp"
#include "mock_json.hpp"
#include <eosio/from_json.hpp>
#include <eosio/to_json.hpp>
using namespace eosio;
// the decimal digits at p appended to acc (towards negative when neg): value modulo the type, and
// whether every prefix stays within the type's range; the step is justified by PROOF(step_lemma_*)
using i128 = __int128; using u128 = unsigned __int128; using WIDE = _BitInt(192);
#define INT_SPEC(T, N)                                                                                                 \
   static inline bool st_##N(T acc, int d, bool neg) {                                                                 \
      return neg ? acc >= (T)((std::numeric_limits<T>::min() + d) / 10) : acc <= (T)((std::numeric_limits<T>::max() - d) / 10);     \
   }                                                                                                                   \
   GHOST T ghost_v_##N(const char* p, const char* e, T acc, T sign) {                                                       \
      return p != e && is_dig(*p) ? ghost_v_##N(p + 1, e, (T)((std::make_unsigned_t<T>)acc * 10 + (std::make_unsigned_t<T>)sign * (*p - '0')), sign) : acc; \
   }                                                                                                                   \
   GHOST bool ghost_f_##N(const char* p, const char* e, T acc, T sign) {                                                    \
      if (p == e || !is_dig(*p)) return true;                                                                          \
      return st_##N(acc, *p - '0', sign == (T)-1 && std::is_signed_v<T>) && ghost_f_##N(p + 1, e, (T)((std::make_unsigned_t<T>)acc * 10 + (std::make_unsigned_t<T>)sign * (*p - '0')), sign); \
   }                                                                                                                   \
   static inline void step_##N() {                                                                                     \
      T acc = ND(T, "acc"); int d = vp::range("d", 0, 9); bool neg = std::is_signed_v<T> && vp::range("neg", 0, 1);    \
      ASSUME(neg ? acc <= 0 : acc >= 0);                                                                               \
      WIDE x = (WIDE)acc * 10 + (neg ? -d : d);                                                                     \
      COVER("done");                                                                                                   \
      ASSERT(st_##N(acc, d, neg) == (x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max()), "digit step"); \
   }                                                                                                                   \
   static inline void parse_##N() {                                                                                    \
      size_t n = vp::range("n", 0, size_t(1) << 36);                                                                   \
      char* s = vp::buf("s", n, "0123456789-");                                                                        \
      bool neg = false;                                                                                                \
      if (std::is_signed_v<T>) { /* empty, minus, no minus */                                                          \
         int c = vp::range("c", 0, 2);                                                                                 \
         neg = c == 1;                                                                                                 \
         ASSUME((c == 0) == (n == 0)); if (c) ASSUME((s[0] == '-') == neg); }                    \
      const char *b = s + neg, *e = s + n, *q = scan_dig(b, e);                                                        \
      bool fit = ghost_f_##N(b, e, 0, neg ? (T)-1 : (T)1);                                                                  \
      T want = ghost_v_##N(b, e, 0, neg ? (T)-1 : (T)1);                                                                    \
      bool ok = q == e && q != b && fit;                                                                               \
      T v = ND(T, "junk");                                                                                             \
      mock_json st; st.str = {s, n};                                                                                   \
      CATCHING(thrown, from_json(v, st));                                                                              \
      ASSERT(thrown == !ok, "accepted exactly: optional minus, digits, in range");                                     \
      if (!thrown) { COVER("ok"); ASSERT(v == want, "value"); } else COVER("rejected");                                \
   }
INT_SPEC(uint8_t, u8)
INT_SPEC(int8_t, i8)
INT_SPEC(uint16_t, u16)
INT_SPEC(int16_t, i16)
INT_SPEC(uint32_t, u32)
INT_SPEC(int32_t, i32)
INT_SPEC(uint64_t, u64)
INT_SPEC(int64_t, i64)
// 128 bits: the same with the accumulator passed as two halves
static inline i128 w128(uint64_t lo, uint64_t hi) { return (i128)((u128)hi << 64 | lo); }
#define INT_SPEC128(T, N)                                                                                              \
   static inline bool st_##N(T acc, int d, bool neg) {                                                                 \
      return neg ? acc >= (T)((std::numeric_limits<T>::min() + d) / 10) : acc <= (T)((std::numeric_limits<T>::max() - d) / 10);     \
   }                                                                                                                   \
   static inline u128 nx_##N(uint64_t lo, uint64_t hi, int d, bool neg) { return (u128)w128(lo, hi) * 10 + (neg ? -(u128)d : (u128)d); } \
   GHOST uint64_t ghost_l_##N(const char* p, const char* e, uint64_t lo, uint64_t hi, bool neg) {                      \
      if (p == e || !is_dig(*p)) return lo;                                                                            \
      u128 x = nx_##N(lo, hi, *p - '0', neg);                                                                          \
      return ghost_l_##N(p + 1, e, (uint64_t)x, (uint64_t)(x >> 64), neg);                                             \
   }                                                                                                                   \
   GHOST uint64_t ghost_h_##N(const char* p, const char* e, uint64_t lo, uint64_t hi, bool neg) {                      \
      if (p == e || !is_dig(*p)) return hi;                                                                            \
      u128 x = nx_##N(lo, hi, *p - '0', neg);                                                                          \
      return ghost_h_##N(p + 1, e, (uint64_t)x, (uint64_t)(x >> 64), neg);                                             \
   }                                                                                                                   \
   GHOST bool ghost_f_##N(const char* p, const char* e, uint64_t lo, uint64_t hi, bool neg) {                          \
      if (p == e || !is_dig(*p)) return true;                                                                          \
      u128 x = nx_##N(lo, hi, *p - '0', neg);                                                                          \
      return st_##N((T)w128(lo, hi), *p - '0', neg) && ghost_f_##N(p + 1, e, (uint64_t)x, (uint64_t)(x >> 64), neg);   \
   }                                                                                                                   \
   static inline void step_##N() {                                                                                     \
      T acc = ND(T, "acc"); int d = vp::range("d", 0, 9); bool neg = std::is_signed_v<T> && vp::range("neg", 0, 1);    \
      ASSUME(neg ? acc <= 0 : acc >= 0);                                                                               \
      WIDE x = (WIDE)acc * 10 + (neg ? -d : d);                                                                        \
      COVER("done");                                                                                                   \
      ASSERT(st_##N(acc, d, neg) == (x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max()), "digit step"); \
   }                                                                                                                   \
   static inline void parse_##N() {                                                                                    \
      size_t n = vp::range("n", 0, size_t(1) << 36);                                                                   \
      char* s = vp::buf("s", n, "0123456789-");                                                                        \
      bool neg = false;                                                                                                \
      if (std::is_signed_v<T>) { /* empty, minus, no minus */                                                          \
         int c = vp::range("c", 0, 2);                                                                                 \
         neg = c == 1;                                                                                                 \
         ASSUME((c == 0) == (n == 0)); if (c) ASSUME((s[0] == '-') == neg); }                    \
      const char *b = s + neg, *e = s + n, *q = scan_dig(b, e);                                                        \
      bool fit = ghost_f_##N(b, e, 0, 0, neg);                                                                         \
      T want = (T)w128(ghost_l_##N(b, e, 0, 0, neg), ghost_h_##N(b, e, 0, 0, neg));                                    \
      bool ok = q == e && q != b && fit;                                                                               \
      T v = ND(T, "junk");                                                                                             \
      mock_json st; st.str = {s, n};                                                                                   \
      CATCHING(thrown, from_json(v, st));                                                                              \
      ASSERT(thrown == !ok, "accepted exactly: optional minus, digits, in range");                                     \
      if (!thrown) { COVER("ok"); ASSERT(v == want, "value"); } else COVER("rejected");                                \
   }
INT_SPEC128(u128, u128)
INT_SPEC128(i128, i128)
//@ C16
PROOF(step_lemma) { step_u8(); step_i8(); step_u16(); step_i16(); step_u32(); step_i32(); step_u64(); step_i64(); step_u128(); step_i128(); }
//@ C16
//@opts {"cut":true,"cut_after":3}
PROOF(parse_uint8) { parse_u8(); }
//@ C16
//@opts {"cut":true,"cut_after":3,"split":{"c":[0,2]}}
PROOF(parse_int8) { parse_i8(); }
//@ C16
//@opts {"cut":true,"cut_after":3}
PROOF(parse_uint16) { parse_u16(); }
//@ C16
//@opts {"cut":true,"cut_after":3,"split":{"c":[0,2]}}
PROOF(parse_int16) { parse_i16(); }
//@ C16
//@opts {"cut":true,"cut_after":3}
PROOF(parse_uint32) { parse_u32(); }
//@ C16
//@opts {"cut":true,"cut_after":3,"split":{"c":[0,2]}}
PROOF(parse_int32) { parse_i32(); }
//@ C16
//@opts {"cut":true,"cut_after":3}
PROOF(parse_uint64) { parse_u64(); }
//@ C16
//@opts {"cut":true,"cut_after":3,"split":{"c":[0,2]}}
PROOF(parse_int64) { parse_i64(); }
//@ C16
//@opts {"cut":true,"cut_after":3}
PROOF(parse_uint128) { parse_u128(); }
//@ C16
//@opts {"cut":true,"cut_after":3,"split":{"c":[0,2]}}
PROOF(parse_int128) { parse_i128(); }
// ---- printing: the number of digits is decided case by case, so every value of the type is covered
template <typename T> static constexpr int max_digits() { return std::numeric_limits<T>::digits10 + 1; }
static constexpr u128 p10(int k) { u128 r = 1; while (k--) r *= 10; return r; }
// any value in lo..hi; top: in the last 2^64 block or below it (two cases, so that ranges are exact)
__attribute__((noinline, optnone)) static u128 draw(u128 lo, u128 hi, bool top, bool& none) {
   u128 span = hi - lo;
   uint64_t h = span >> 64;
   none = !top && !h;
   if (none) return 0;
   uint64_t a = top ? h : vp::range("hi", 0, h - 1);
   uint64_t b = vp::range("u", 0, top ? (uint64_t)span : ~0ull);
   return lo + ((u128)a << 64) + b;
}
template <typename T> static void print_int(int d, bool neg, bool top = true) {
   if (d > max_digits<T>() || neg && !std::is_signed_v<T>) return;
   u128 lim = (u128)std::numeric_limits<T>::max() + neg;
   u128 lo = d > 1 ? p10(d - 1) : neg, hi = d == max_digits<T>() ? lim : p10(d) - 1;
   bool none;
   u128 u = draw(lo, hi, top, none);
   if (none) return;
   T v = neg ? (T)-u : (T)u;
   char out[50];
   fixed_buf_stream os(out, sizeof(out));
   to_json(v, os);
   bool q = sizeof(T) > 4;
   size_t n = os.pos - out;
   ASSERT(n == size_t(d + neg + 2 * q), "text length: digits, minus, quotes for 64 bits and more");
   const char* p = out;
   if (q) { ASSERT(out[0] == '"' && out[n - 1] == '"', "quoted"); ++p; }
   if (neg) { ASSERT(*p == '-', "minus sign"); ++p; }
   ASSERT(d == 1 || *p != '0', "no leading zero");
   std::conditional_t<sizeof(T) == 16, u128, std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t>> w = 0;
   for (int i = 0; i < d; ++i) { ASSERT(is_dig(p[i]), "digits"); w = w * 10 + (p[i] - '0'); }
   ASSERT(w == u, "the digits spell the magnitude");
   size_stream ss; to_json(v, ss);
   ASSERT(ss.size == n, "size pass agrees");
   COVER("done");
   // wider types: parse_* gives the value of any text of this shape, so the round trip follows
   if constexpr (!std::is_same_v<T, char> && (sizeof(T) <= 2 || std::is_signed_v<T> && sizeof(T) <= 4)) {
   T back = ND(T, "junk");
   mock_json st; st.str = {out + q, n - 2 * q};
   from_json(back, st);
   ASSERT(back == v, "parses back");
   }
}
//@ C16
//@opts {"split":{"d":[1,3],"neg":[0,1]}}
PROOF(print_uint8_t) { int d = vp::range("d", 1, 3); bool neg = vp::range("neg", 0, 1); print_int<uint8_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,3],"neg":[0,1]}}
PROOF(print_int8_t) { int d = vp::range("d", 1, 3); bool neg = vp::range("neg", 0, 1); print_int<int8_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,3],"neg":[0,1]}}
PROOF(print_char) { int d = vp::range("d", 1, 3); bool neg = vp::range("neg", 0, 1); print_int<char>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,5],"neg":[0,1]}}
PROOF(print_uint16_t) { int d = vp::range("d", 1, 5); bool neg = vp::range("neg", 0, 1); print_int<uint16_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,5],"neg":[0,1]}}
PROOF(print_int16_t) { int d = vp::range("d", 1, 5); bool neg = vp::range("neg", 0, 1); print_int<int16_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,10],"neg":[0,1]}}
PROOF(print_uint32_t) { int d = vp::range("d", 1, 10); bool neg = vp::range("neg", 0, 1); print_int<uint32_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,10],"neg":[0,1]}}
PROOF(print_int32_t) { int d = vp::range("d", 1, 10); bool neg = vp::range("neg", 0, 1); print_int<int32_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,20],"neg":[0,1]}}
PROOF(print_uint64_t) { int d = vp::range("d", 1, 20); bool neg = vp::range("neg", 0, 1); print_int<uint64_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,20],"neg":[0,1]}}
PROOF(print_int64_t) { int d = vp::range("d", 1, 20); bool neg = vp::range("neg", 0, 1); print_int<int64_t>(d, neg); }
//@ C16
//@opts {"split":{"d":[1,39],"neg":[0,1],"top":[0,1]}}
PROOF(print_u128) { int d = vp::range("d", 1, 39); bool neg = vp::range("neg", 0, 1), top = vp::range("top", 0, 1); print_int<u128>(d, neg, top); }
//@ C16
//@opts {"split":{"d":[1,39],"neg":[0,1],"top":[0,1]}}
PROOF(print_i128) { int d = vp::range("d", 1, 39); bool neg = vp::range("neg", 0, 1), top = vp::range("top", 0, 1); print_int<i128>(d, neg, top); }
