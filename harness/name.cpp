#include "vp.hpp"
#include <eosio/name.hpp>

// ---- specification -------------------------------------------------------------
// digit of a name character, -1 if not in the alphabet ".12345a-z"
static int digit(unsigned char c) {
   if (c == '.') return 0;
   if (c >= '1' && c <= '5') return c - '0';
   if (c >= 'a' && c <= 'z') return c - 'a' + 6;
   return -1;
}
// i-th base-32 digit (the 13th has 4 bits) of a name value
static unsigned dig(uint64_t v, int i) { return i < 12 ? (v >> (59 - 5 * i)) & 31 : v & 15; }

//@ C01 C02
PROOF(name_to_string) {
   uint64_t    v = ND(uint64_t, "v");
   std::string s = eosio::name_to_string(v);
   ASSERT(s.size() <= 13, "at most 13 characters");
   bool ok = true;
   bool last_nondot = true;
   for (int i = 0; i < 13; ++i) {
      unsigned got = 0;
      if ((size_t)i < s.size()) {
         int d = digit(s[i]);
         ok = ok && d >= 0;
         got = d;
         last_nondot = d != 0;
      }
      ok = ok && got == dig(v, i);
   }
   COVER("done");
   ASSERT(ok, "characters are the base-32 digits of the value");
   ASSERT(last_nondot, "no trailing dot");
}

//@ C01
PROOF(name_class_to_string) {
   uint64_t    v = ND(uint64_t, "v");
   std::string s = eosio::name{v}.to_string();
   std::string t = (std::string)eosio::name{v};
   std::string u = eosio::name_to_string(v);
   COVER("done");
   ASSERT(s == u && t == u, "name renders as its value's text");
}

//@ C01
PROOF(strict_accepts) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char*    p    = vp::buf("s", n, ".12345abcdefghijklmnopqrstuvwxyz");
   bool     ok   = n <= 13;
   uint64_t want = 0;
   for (size_t i = 0; i < 13; ++i) {
      if (i >= n) break;
      int d = digit(p[i]);
      ok = ok && d >= 0 && (i < 12 || d < 16);
      want |= i < 12 ? (uint64_t)(d & 31) << (59 - 5 * i) : (uint64_t)(d & 15);
   }
   auto r = eosio::try_string_to_name_strict(std::string_view{p, n});
   ASSERT((bool)r == ok, "accepts exactly the valid names");
   if (ok) { COVER("valid"); ASSERT(r.val == want, "value of an accepted name"); }
   else { COVER("invalid"); }
   uint64_t v = 0;
   CATCHING(thrown, v = eosio::string_to_name_strict(std::string_view{p, n}));
   ASSERT(thrown == !ok, "throws exactly on invalid");
   if (!thrown) ASSERT(v == want, "value returned by the throwing form");
   uint64_t v2 = 0;
   CATCHING(thrown2, v2 = eosio::name{std::string_view{p, n}}.value);
   ASSERT(thrown2 == !ok, "constructor throws exactly on invalid");
   if (!thrown2) ASSERT(v2 == want, "value of a constructed name");
}

//@ C01
PROOF(text_round_trip) {
   uint64_t    v = ND(uint64_t, "v");
   std::string s = eosio::name_to_string(v);
   auto        r = eosio::try_string_to_name_strict(s);
   COVER("done");
   ASSERT((bool)r, "rendered text is accepted");
   ASSERT(r.val == v, "rendered text parses back to the value");
   ASSERT(eosio::string_to_name(std::string_view{s}) == v, "lenient parse of rendered text gives the value");
}

//@ C01
PROOF(char_value) {
   unsigned char c = ND(unsigned char, "c");
   int           d = digit(c);
   uint8_t       r = 0;
   CATCHING(thrown, r = eosio::name::char_to_value((char)c));
   ASSERT(thrown == (d < 0), "rejects exactly the characters outside the alphabet");
   if (!thrown) { COVER("ok"); ASSERT(r == d, "value"); }
}

//@ C01
PROOF(lenient_agrees) {
   size_t n = vp::range("n", 0, 13);
   char* p = vp::buf("s", n, ".12345abcdefghijklmnopqrstuvwxyz");
   auto  r = eosio::try_string_to_name_strict(std::string_view{p, n});
   uint64_t l = eosio::string_to_name(p, (int)n);
   if (r) { COVER("valid"); ASSERT(l == r.val, "lenient and strict agree on valid names"); }
   uint64_t want = 0;
   for (size_t i = 0; i < 13; ++i) {
      if (i >= n) break;
      int d = digit(p[i]); if (d < 0) d = 0;
      want |= i < 12 ? (uint64_t)(d & 31) << (59 - 5 * i) : (uint64_t)(d & 15);
   }
   ASSERT(l == want, "lenient parse maps characters outside the alphabet to dots");
}

//@ C01
PROOF(lenient_cstr) {
   char* p = vp::buf("s", 20, ".12345abcdefghijklmnopqrstuvwxyz");
   unsigned n = vp::range("n", 0, 19);
   for (unsigned i = 0; i < 19; ++i) if (i < n) ASSUME(p[i] != 0);
   ASSUME(p[n] == 0);
   COVER("done");
   uint64_t a = eosio::string_to_name(p);
   uint64_t b = eosio::string_to_name(p, (int)n);
   ASSERT(a == b, "C string form");
}

// ---- C02: prefix, suffix, length ---------------------------------------------------
// number of characters in the text, and the index of its last dot (-1: none)
static int text_len(uint64_t v) {
   int l = 0;
   for (int i = 0; i < 13; ++i) if (dig(v, i)) l = i + 1;
   return l;
}
static int last_dot(uint64_t v, int len) {
   int k = -1;
   for (int i = 0; i < 13; ++i) if (i < len && dig(v, i) == 0) k = i;
   return k;
}
//@ C02
PROOF(name_length) {
   uint64_t v = ND(uint64_t, "v");
   COVER("done");
   ASSERT(eosio::name{v}.length() == text_len(v), "length is the length of the text");
}
//@ C02
PROOF(name_suffix) {
   uint64_t v = ND(uint64_t, "v");
   int      len = text_len(v), k = last_dot(v, len);
   uint64_t s = eosio::name{v}.suffix().value;
   if (k < 0) { COVER("nodot"); ASSERT(s == v, "suffix of a name without dots is the name"); }
   else {
      COVER("dot");
      uint64_t want = 0;
      for (int i = 0; i < 12; ++i) {
         int j = k + 1 + i;
         unsigned d = j < 13 ? dig(v, j) : 0;
         want |= (uint64_t)d << (59 - 5 * i);
      }
      ASSERT(s == want, "suffix is the text after the last dot");
   }
}
//@ C02
PROOF(name_prefix) {
   uint64_t v = ND(uint64_t, "v");
   int      len = text_len(v), k = last_dot(v, len);
   uint64_t s = eosio::name{v}.prefix().value;
   if (k < 0) { COVER("nodot"); ASSERT(s == v, "prefix of a name without dots is the name"); }
   else {
      COVER("dot");
      uint64_t want = 0;
      for (int i = 0; i < 12; ++i) if (i < k) want |= (uint64_t)dig(v, i) << (59 - 5 * i);
      ASSERT(s == want, "prefix is the text before the last dot");
   }
}
//@ C02
PROOF(name_order) {
   uint64_t a = ND(uint64_t, "a"), b = ND(uint64_t, "b");
   eosio::name x{a}, y{b};
   COVER("done");
   ASSERT((x == y) == (a == b) && (x != y) == (a != b), "equality");
   ASSERT((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order");
   ASSERT((bool)x == (a != 0), "conversion to bool");
   ASSERT((uint64_t)(eosio::name::raw)x == a, "conversion to raw");
}
