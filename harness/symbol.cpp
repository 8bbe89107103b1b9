#include "vp.hpp"
#include "text_spec.hpp"
#include <eosio/symbol.hpp>
using namespace eosio;

// valid symbol code: 1..7 letters A-Z in the low bytes, then zero bytes; returns length, -1 if invalid
static int spec_len(uint64_t v) {
   int  n = 0;
   bool end = false, ok = true;
   for (int i = 0; i < 8; ++i) {
      uint8_t c = v >> (8 * i);
      if (c == 0) end = true;
      else { if (end || c < 'A' || c > 'Z' || i >= 7) ok = false; n = i + 1; }
   }
   return ok && n >= 1 ? n : -1;
}
//@ C08
PROOF(code_is_valid) {
   uint64_t v = ND(uint64_t, "v");
   int      n = spec_len(v);
   COVER("done");
   ASSERT(symbol_code{v}.is_valid() == (n > 0), "is_valid accepts exactly 1 to 7 upper-case letters");
   if (n > 0) { COVER("valid"); ASSERT((int)symbol_code{v}.length() == n, "length"); }
   ASSERT(symbol_code{v}.raw() == v && (bool)symbol_code{v} == (v != 0), "raw value");
}
//@ C08
PROOF(symbol_is_valid) {
   uint64_t v = ND(uint64_t, "v");
   uint8_t  p = ND(uint8_t, "p");
   int      n = spec_len(v >> 8);
   COVER("done");
   ASSERT(symbol{v}.is_valid() == (n > 0), "validity is that of the code");
   ASSERT(symbol{v}.precision() == (uint8_t)v && symbol{v}.code().raw() == v >> 8 && symbol{v}.raw() == v, "fields");
   symbol s{symbol_code{v}, p};
   ASSERT(s.precision() == p && s.code().raw() == (v & 0x00ff'ffff'ffff'ffff), "composition");
}
//@ C08
PROOF(code_from_text) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char*  p = vp::buf("s", n, "ABCXYZ");
   bool   ok = n <= 7;
   uint64_t want = 0;
   for (size_t i = 0; i < 7; ++i) {
      if (i >= n) break;
      ok = ok && p[i] >= 'A' && p[i] <= 'Z';
      want |= (uint64_t)(uint8_t)p[i] << (8 * i);
   }
   uint64_t v = 0;
   CATCHING(thrown, v = symbol_code{std::string_view{p, n}}.raw());
   ASSERT(thrown == !ok, "constructor rejects exactly the invalid strings");
   if (!thrown) { COVER("ok"); ASSERT(v == want, "value"); }
   uint8_t pr = ND(uint8_t, "p");
   CATCHING(thrown2, v = symbol(std::string_view{p, n}, pr).raw());
   ASSERT(thrown2 == !ok, "symbol constructor rejects exactly the invalid strings");
   if (!thrown2) ASSERT(v == ((want << 8) | pr), "symbol value");
}
//@ C08
PROOF(lemma_scan) {
   size_t n = vp::range("n", 0, size_t(1) << 36), i = ND(size_t, "i");
   char*  s = vp::buf("s", n, "ABCXYZ  ");
   ASSUME(i <= n);
   const char *p = s + i, *e = s + n;
   if (p != e) ASSUME(lem_sp(p + 1, e) && lem_dig(p + 1, e));
   COVER("done");
   ASSERT(lem_sp(p, e) && lem_dig(p, e), "induction step: a scan ends between its start and the end");
}
//@ C08
//@opts {"cut":true,"cut_after":9}
PROOF(code_parse) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char*  p = vp::buf("s", n, "ABCXYZ  ");
   const char* k = scan_sp(p, p + n);
   letters     L = spec_letters(k, p + n);
   bool ok = L.m >= 1 && L.m <= 7;
   uint64_t    v = ND(uint64_t, "junk");
   const char* pos = p;
   bool r = string_to_symbol_code(v, pos, p + n, false);
   ASSERT(r == ok, "prefix form accepts exactly spaces then 1 to 7 letters");
   if (r) { COVER("ok"); ASSERT(v == L.code && pos == k + L.m, "value and end position"); }
   ASSERT(pos >= p && pos <= p + n, "position inside the input");
   bool r2 = string_to_symbol_code(v, p, p + n);
   ASSERT(r2 == (ok && k + L.m == p + n), "full form requires the end of the text");
   if (r2) { COVER("full"); ASSERT(v == L.code, "value"); }
}
//@ C08
PROOF(code_text_round_trip) {
   uint64_t v = ND(uint64_t, "v");
   std::string s = symbol_code_to_string(v);
   int n = spec_len(v);
   if (n > 0) {
      COVER("valid");
      ASSERT((int)s.size() == n, "text length");
      bool same = true;
      for (int i = 0; i < 7; ++i) if (i < n) same = same && (uint8_t)s[i] == (uint8_t)(v >> (8 * i));
      ASSERT(same, "text is the letters");
      uint64_t b = ~v;
      bool r = string_to_symbol_code(b, s.data(), s.data() + s.size());
      ASSERT(r && b == v, "text parses back");
      ASSERT(symbol_code{std::string_view{s}}.raw() == v, "text constructs back");
      std::string t = symbol_code{v}.to_string();
      ASSERT(t == s, "to_string");
   }
}
// precision digits appended to acc, BAD above 255
GHOST uint64_t ghost_prec(const char* p, const char* e, uint32_t acc) {
   if (p == e || !is_dig(*p)) return acc;
   uint32_t a = acc * 10 + (*p - '0');
   return a > 255 ? BAD : ghost_prec(p + 1, e, a);
}
//@ C08
//@opts {"cut":true,"cut_after":9}
PROOF(symbol_parse) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char*  p = vp::buf("s", n, "ABCXYZ01234569, ,");
   const char* e = p + n;
   // digits ',' spaces letters
   const char* k    = scan_dig(p, e);
   uint64_t    prec = ghost_prec(p, e, 0);
   bool        ok   = k != p && k != e && *k == ',' && prec != BAD;
   const char* q    = k != e ? scan_sp(k + 1, e) : e;
   letters     L    = spec_letters(q, e);
   ok = ok && L.m >= 1 && L.m <= 7;
   uint64_t    v = ND(uint64_t, "junk");
   const char* pos = p;
   bool r = string_to_symbol(v, pos, p + n, false);
   ASSERT(r == ok, "accepts exactly precision (0..255), comma, code");
   if (r) { COVER("ok"); ASSERT(v == ((L.code << 8) | prec) && pos == q + L.m, "value and end position"); }
   bool r2 = string_to_symbol(v, p, p + n);
   ASSERT(r2 == (ok && q + L.m == e), "full form requires the end of the text");
   if (r2) { COVER("full"); ASSERT(v == ((L.code << 8) | prec), "value"); }
}
//@ C08
PROOF(symbol_text_round_trip) {
   uint64_t v = ND(uint64_t, "v");
   int n = spec_len(v >> 8);
   ASSUME(n > 0);
   std::string s = symbol_to_string(v);
   COVER("valid");
   uint64_t b = ~v;
   bool r = string_to_symbol(b, s.data(), s.data() + s.size());
   ASSERT(r && b == v, "text parses back");
   std::string t = symbol{v}.to_string();
   ASSERT(t == s, "to_string");
   unsigned pr = v & 255;
   size_t d = pr >= 100 ? 3 : pr >= 10 ? 2 : 1;
   ASSERT(s.size() == d + 1 + n && s[d] == ',', "shape");
   unsigned back = 0; bool dig = true;
   for (size_t i = 0; i < 3; ++i) if (i < d) { dig = dig && s[i] >= '0' && s[i] <= '9'; back = back * 10 + (s[i] - '0'); }
   ASSERT(dig && back == pr, "precision digits");
}
//@ C08
PROOF(symbol_compare) {
   uint64_t a = ND(uint64_t, "a"), b = ND(uint64_t, "b"), c = ND(uint64_t, "c"), d = ND(uint64_t, "d");
   COVER("done");
   ASSERT((symbol{a} == symbol{b}) == (a == b) && (symbol{a} < symbol{b}) == (a < b) && (symbol{a} != symbol{b}) == (a != b), "symbol order is the order of raw values");
   ASSERT((symbol_code{a} == symbol_code{b}) == (a == b) && (symbol_code{a} < symbol_code{b}) == (a < b), "code order is the order of raw values");
   extended_symbol x{symbol{a}, name{b}}, y{symbol{c}, name{d}};
   ASSERT((x == y) == (a == c && b == d), "extended symbol equality");
   ASSERT((x < y) == (a < c || (a == c && b < d)), "extended symbol order is lexicographic");
   ASSERT((x > y) == (c < a || (a == c && d < b)) && (x <= y) == !(x > y) && (x >= y) == !(x < y) && (x != y) == !(x == y), "derived comparisons");
   ASSERT(x.get_symbol().raw() == a && x.get_contract().value == b, "parts");
}
