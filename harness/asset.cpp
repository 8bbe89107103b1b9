#include "vp.hpp"
#include "text_spec.hpp"
#include <eosio/asset.hpp>
using namespace eosio;

static constexpr int64_t MAXA = (int64_t(1) << 62) - 1;
static bool in_range(__int128 v) { return -(__int128)MAXA <= v && v <= (__int128)MAXA; }
static asset raw_asset(int64_t a, uint64_t s) { asset r; r.amount = a; r.symbol = symbol{s}; return r; }
static bool code_ok(uint64_t v) {
   int  n = 0;
   bool end = false, ok = true;
   for (int i = 0; i < 8; ++i) {
      uint8_t c = v >> (8 * i);
      if (c == 0) end = true;
      else { if (end || c < 'A' || c > 'Z' || i >= 7) ok = false; n = i + 1; }
   }
   return ok && n >= 1;
}

//@ C10
PROOF(asset_constructor) {
   int64_t a = ND(int64_t, "a"); uint64_t s = ND(uint64_t, "s");
   bool ok = in_range(a) && code_ok(s >> 8);
   asset r;
   CATCHING(t, r = asset(a, symbol{s}));
   ASSERT(t == !ok, "constructor accepts exactly in-range amounts with a valid symbol");
   if (!t) { COVER("ok"); ASSERT(r.amount == a && r.symbol.raw() == s && r.is_valid(), "fields"); }
   else COVER("rejected");
   ASSERT(raw_asset(a, s).is_valid() == ok && raw_asset(a, s).is_amount_within_range() == in_range(a), "is_valid");
   asset q = raw_asset(1, s);
   CATCHING(t2, q.set_amount(a));
   ASSERT(t2 == !in_range(a), "set_amount accepts exactly in-range amounts");
   if (!t2) ASSERT(q.amount == a && q.symbol.raw() == s, "set_amount result");
}
//@ C10
//@ub
PROOF(asset_add_sub) {
   int64_t a = ND(int64_t, "a"), b = ND(int64_t, "b"); uint64_t s = ND(uint64_t, "s"), u = ND(uint64_t, "u");
   ASSUME(in_range(a) && in_range(b));
   asset x = raw_asset(a, s), y = raw_asset(b, u), r;
   __int128 sum = (__int128)a + b, dif = (__int128)a - b;
   CATCHING(t, r = x + y);
   ASSERT(t == !(s == u && in_range(sum)), "addition is rejected exactly on symbol mismatch or overflow");
   if (!t) { COVER("add"); ASSERT(r.amount == sum && r.symbol.raw() == s, "sum"); } else COVER("noadd");
   CATCHING(t2, r = x - y);
   ASSERT(t2 == !(s == u && in_range(dif)), "subtraction is rejected exactly on symbol mismatch or overflow");
   if (!t2) { COVER("sub"); ASSERT(r.amount == dif && r.symbol.raw() == s, "difference"); }
   asset z = x;
   CATCHING(t3, z += y);
   ASSERT(t3 == t, "+= agrees with +");
   if (!t3) ASSERT(z.amount == sum && z.symbol.raw() == s, "+=");
   asset w = x;
   CATCHING(t4, w -= y);
   ASSERT(t4 == t2, "-= agrees with -");
   if (!t4) ASSERT(w.amount == dif && w.symbol.raw() == s, "-=");
   asset n = -x;
   ASSERT(n.amount == -a && n.symbol.raw() == s && n.is_amount_within_range(), "negation");
   ASSERT(x.amount == a && y.amount == b, "operands unchanged");
}
//@ C10
//@ub
PROOF(asset_mul) {
   int64_t a = ND(int64_t, "a"), b = ND(int64_t, "b"); uint64_t s = ND(uint64_t, "s");
   ASSUME(in_range(a));
   asset x = raw_asset(a, s), r;
   __int128 p = (__int128)a * b;
   CATCHING(t, r = x * b);
   ASSERT(t == !in_range(p), "multiplication is rejected exactly on overflow");
   if (!t) { COVER("mul"); ASSERT(r.amount == p && r.symbol.raw() == s, "product"); } else COVER("nomul");
   CATCHING(t2, r = b * x);
   ASSERT(t2 == t && (t2 || (r.amount == p && r.symbol.raw() == s)), "commuted multiplication");
   asset y = x;
   CATCHING(t3, y *= b);
   ASSERT(t3 == t && (t3 || (y.amount == p && y.symbol.raw() == s)), "*=");
}
//@ C10
//@ub
PROOF(asset_div) {
   int64_t a = ND(int64_t, "a"), b = ND(int64_t, "b"); uint64_t s = ND(uint64_t, "s"), u = ND(uint64_t, "u");
   asset x = raw_asset(a, s), r;
   bool bad = b == 0 || (a == std::numeric_limits<int64_t>::min() && b == -1);
   CATCHING(t, r = x / b);
   ASSERT(t == bad, "division is rejected exactly when there is no quotient");
   if (!t) { COVER("div"); ASSERT(r.amount == a / b && r.symbol.raw() == s, "quotient"); } else COVER("nodiv");
   asset y = x;
   CATCHING(t2, y /= b);
   ASSERT(t2 == t && (t2 || (y.amount == r.amount && y.symbol.raw() == s)), "/=");
   if (in_range(a) && in_range(b)) {
      int64_t q = 0;
      CATCHING(t3, q = x / raw_asset(b, u));
      ASSERT(t3 == (b == 0 || s != u), "ratio is rejected exactly for zero or a different symbol");
      if (!t3) { COVER("ratio"); ASSERT(q == a / b, "ratio"); }
   }
}
//@ C10
PROOF(asset_compare) {
   int64_t a = ND(int64_t, "a"), b = ND(int64_t, "b"); uint64_t s = ND(uint64_t, "s"), u = ND(uint64_t, "u");
   asset x = raw_asset(a, s), y = raw_asset(b, u);
   bool r = false;
   int  n = 0;
   try { r = x == y; ++n; ASSERT(r == (a == b), "=="); } catch (...) {}
   try { r = x != y; ++n; ASSERT(r == (a != b), "!="); } catch (...) {}
   try { r = x < y; ++n; ASSERT(r == (a < b), "<"); } catch (...) {}
   try { r = x <= y; ++n; ASSERT(r == (a <= b), "<="); } catch (...) {}
   try { r = x > y; ++n; ASSERT(r == (a > b), ">"); } catch (...) {}
   try { r = x >= y; ++n; ASSERT(r == (a >= b), ">="); } catch (...) {}
   COVER("done");
   ASSERT(n == (s == u ? 6 : 0), "comparison is rejected exactly for different symbols");
}
//@ C10
//@ub
PROOF(extended_asset_arith) {
   int64_t a = ND(int64_t, "a"), b = ND(int64_t, "b"); uint64_t s = ND(uint64_t, "s"), u = ND(uint64_t, "u");
   uint64_t c = ND(uint64_t, "c"), d = ND(uint64_t, "d");
   ASSUME(in_range(a) && in_range(b));
   extended_asset x(raw_asset(a, s), name{c}), y(raw_asset(b, u), name{d}), r;
   __int128 sum = (__int128)a + b, dif = (__int128)a - b;
   CATCHING(t, r = x + y);
   ASSERT(t == !(s == u && c == d && in_range(sum)), "addition rejected exactly on mismatch or overflow");
   if (!t) { COVER("add"); ASSERT(r.quantity.amount == sum && r.quantity.symbol.raw() == s && r.contract.value == c, "sum"); }
   CATCHING(t2, r = x - y);
   ASSERT(t2 == !(s == u && c == d && in_range(dif)), "subtraction rejected exactly on mismatch or overflow");
   if (!t2) { COVER("sub"); ASSERT(r.quantity.amount == dif && r.quantity.symbol.raw() == s && r.contract.value == c, "difference"); }
   extended_asset z = x;
   CATCHING(t3, z += y);
   ASSERT(t3 == t && (t3 || z.quantity.amount == sum), "+=");
   extended_asset w = x;
   CATCHING(t4, w -= y);
   ASSERT(t4 == t2 && (t4 || w.quantity.amount == dif), "-=");
   extended_asset n = -x;
   ASSERT(n.quantity.amount == -a && n.quantity.symbol.raw() == s && n.contract.value == c, "negation");
   bool lt = false, le = false, ge = false, eq = false;
   CATCHING(t5, lt = x < y);
   CATCHING(t6, le = x <= y);
   CATCHING(t7, ge = x >= y);
   bool bad = s != u || c != d;
   ASSERT(t5 == bad && t6 == bad && t7 == bad, "ordering rejected exactly on mismatch");
   if (!bad) { COVER("cmp"); ASSERT(lt == (a < b) && le == (a <= b) && ge == (a >= b), "ordering"); }
   CATCHING(t8, eq = x == y);
   ASSERT(t8 == (s != u), "equality rejected exactly for different symbols");
   if (!t8) ASSERT(eq == (a == b && c == d), "equality");
   ASSERT(x.get_extended_symbol().get_symbol().raw() == s && x.get_extended_symbol().get_contract().value == c, "extended symbol");
}

//@ C09
PROOF(digit_step_lemma) {
   uint64_t acc = ND(uint64_t, "acc"), d = vp::range("d", 0, 9); bool neg = ND(bool, "neg");
   const uint64_t lim = uint64_t(INT64_MAX) + neg;
   ASSUME(acc <= lim);
   COVER("done");
   ASSERT((acc > (lim - d) / 10) == ((unsigned __int128)acc * 10 + d > lim), "the digit step is rejected exactly when the magnitude does not fit");
}
// number of fraction digits, and whether value and precision stay in range
GHOST uint8_t ghost_fprec(const char* p, const char* e, uint8_t prec) { return p != e && is_dig(*p) ? ghost_fprec(p + 1, e, prec + 1) : prec; }
GHOST bool ghost_ffits(const char* p, const char* e, uint64_t acc, uint64_t lim, uint8_t prec) {
   if (p == e || !is_dig(*p)) return true;
   return prec != 255 && fits(acc, *p - '0', lim) && ghost_ffits(p + 1, e, acc * 10 + (*p - '0'), lim, prec + 1);
}
struct asset_spec { bool ok; int64_t amount; uint64_t symbol; const char* end; };
static inline asset_spec spec_asset(const char* p, const char* e) {
   const char* k = scan_sp(p, e);
   bool neg = k != e && *k == '-';
   if (neg) ++k;
   const uint64_t lim = uint64_t(INT64_MAX) + neg;
   uint64_t acc = ghost_val(k, e, 0);
   bool     ok = ghost_fits(k, e, 0, lim);
   uint8_t  prec = 0;
   k = scan_dig(k, e);
   if (k != e && *k == '.') {
      ++k;
      ok = ok && ghost_ffits(k, e, acc, lim, 0);
      acc = ghost_val(k, e, acc);
      prec = ghost_fprec(k, e, 0);
      k = scan_dig(k, e);
   }
   k = scan_sp(k, e);
   letters L = spec_letters(k, e);
   return {ok && L.m >= 1 && L.m <= 7, int64_t(neg ? -acc : acc), (L.code << 8) | prec, k + L.m};
}
//@ C09
//@opts {"cut":true,"cut_after":9}
PROOF(asset_parse) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char*  p = vp::buf("s", n, "ABCXYZ 0123456789.- 9223372036854775807");
   asset_spec  w = spec_asset(p, p + n);
   int64_t     a = ND(int64_t, "ja");
   uint64_t    s = ND(uint64_t, "js");
   const char* pos = p;
   bool r = string_to_asset(a, s, pos, p + n, false);
   ASSERT(r == w.ok, "accepts exactly representable amounts followed by a symbol code");
   if (r) { COVER("ok"); ASSERT(a == w.amount, "amount"); ASSERT(s == w.symbol, "symbol and precision"); ASSERT(pos == w.end, "end position"); }
}
//@ C09
//@opts {"cut":true,"cut_after":9}
PROOF(asset_parse_full) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char*  p = vp::buf("s", n, "ABCXYZ 0123456789.- 9223372036854775807");
   asset_spec  w = spec_asset(p, p + n);
   int64_t     a = ND(int64_t, "ja");
   uint64_t    s = ND(uint64_t, "js");
   bool r = string_to_asset(a, s, p, p + n);
   ASSERT(r == (w.ok && w.end == p + n), "full form requires the end of the text");
   if (r) { COVER("full"); ASSERT(a == w.amount, "amount"); ASSERT(s == w.symbol, "symbol and precision"); }
}
