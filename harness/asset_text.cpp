#include "vp.hpp"
#include <eosio/asset.hpp>
using namespace eosio;
static constexpr uint64_t pow10(int k) { uint64_t r = 1; while (k--) r *= 10; return r; }
// the number of fraction and integer digits (decided case by case): every precision 0..255, every amount
//@ C09
//@opts {"split":{"c":[0,597],"neg":[0,1]},"unroll":300}
PROOF(asset_text_round_trip) {
   uint64_t c = vp::range("c", 0, 597);
   bool neg = vp::range("neg", 0, 1);
   uint8_t prec = c < 361 ? c / 19 : 19 + (c - 361);
   int d = c < 361 ? c % 19 + 1 : 0;
   uint64_t lo = d > 1 ? pow10(d - 1) : neg, hi = d == 0 || d == 19 ? uint64_t(INT64_MAX) + neg : pow10(d) - 1;
   uint64_t u = vp::range("u", lo, hi);
   int64_t a = neg ? -u : u;
   uint64_t sym = (uint64_t('A') << 8) | prec;
   std::string t = asset_to_string(a, sym);
   COVER("done");
   int64_t b = 0; uint64_t s2 = 0;
   bool r = string_to_asset(b, s2, t.data(), t.data() + t.size());
   ASSERT(r, "text is accepted");
   ASSERT(b == a && s2 == sym, "text parses back");
}
// every symbol code, with a fixed number of digits
//@ C09
//@opts {"split":{"len":[1,7],"neg":[0,1]}}
PROOF(asset_text_symbol) {
   int len = vp::range("len", 1, 7); bool neg = vp::range("neg", 0, 1);
   uint64_t code = 0;
   for (int i = 0; i < 7; ++i) if (i < len) code |= vp::range("letter", 'A', 'Z') << (8 * i);
   uint64_t u = vp::range("u", 10000, 99999);
   int64_t a = neg ? -u : u;
   asset x{a, symbol{symbol_code{code}, 3}};
   std::string t = x.to_string();
   COVER("done");
   ASSERT(t.size() == size_t(neg + 7 + len) && t[neg + 2] == '.' && t[neg + 6] == ' ' && (!neg || t[0] == '-'), "shape");
   int64_t b = 0; uint64_t s2 = 0;
   bool r = string_to_asset(b, s2, t.data(), t.data() + t.size());
   ASSERT(r, "text is accepted");
   ASSERT(b == a && s2 == x.symbol.raw(), "text parses back");
}
