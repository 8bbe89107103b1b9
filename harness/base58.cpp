#include "vp.hpp"
#include "../src/crypto.cpp"
using namespace eosio;
static const char alphabet[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
// the value of a digit; 58 for any other character
static inline unsigned digit(char c) {
   unsigned char u = c;
   return u >= '1' && u <= '9' ? u - '1' : u >= 'A' && u <= 'H' ? u - 'A' + 9 : u >= 'J' && u <= 'N' ? u - 'J' + 17 : u >= 'P' && u <= 'Z' ? u - 'P' + 22 :
          u >= 'a' && u <= 'k' ? u - 'a' + 33 : u >= 'm' && u <= 'z' ? u - 'm' + 44 : 58;
}
//@ C14
PROOF(alphabet_table) {
   unsigned char c = ND(uint8_t, "c");
   unsigned i = vp::range("i", 0, 57);
   COVER("done");
   ASSERT(digit(alphabet[i]) == i && base58_chars[i] == alphabet[i], "the digits of base 58");
   ASSERT(base58_map[c] == (digit(c) == 58 ? -1 : (int)digit(c)), "and their values");
}
//@ C14
//@bounded at most three zero bytes followed by at most one byte
//@opts {"split":{"m":[0,1],"z":[0,3]}}
PROOF(encode) {
   size_t z = vp::range("z", 0, 3), n = z + vp::range("m", 0, 1);
   char* b = vp::buf("b", n);
   uint64_t v = 0;
   for (size_t i = 0; i < n; ++i) { if (i < z) ASSUME(b[i] == 0); if (i == z) ASSUME(b[i] != 0); v = v << 8 | (uint8_t)b[i]; }
   std::string t = to_base58(b, n);
   COVER("done");
   uint64_t w = 0;
   bool ok = true, lead = true;
   size_t ones = 0;
   for (size_t i = 0; i < t.size(); ++i) {
      unsigned d = digit(t[i]);
      ok = ok && d < 58;
      w = w * 58 + d;
      lead = lead && d == 0;
      ones += lead;
   }
   ASSERT(ok && w == v, "the digits of the number");
   ASSERT(ones == z, "one '1' for each leading zero byte");
}
//@ C14
//@bounded at most three 1 followed by at most two characters
//@opts {"split":{"m":[0,2],"z":[0,3]}}
PROOF(decode) {
   size_t z = vp::range("z", 0, 3), m = vp::range("m", 0, 2), n = z + m;
   char* c = vp::buf("b", m, alphabet);
   char b[16];
   uint64_t v = 0;
   bool ok = true;
   for (size_t i = 0; i < z; ++i) b[i] = '1';
   for (size_t i = z; i < n; ++i) { b[i] = c[i - z]; if (i == z) ASSUME(b[i] != '1'); unsigned d = digit(b[i]); ok = ok && d < 58; v = v * 58 + d; }
   std::vector<char> r;
   r.reserve(16); // (no reallocation)
   r.push_back('x'); r.push_back('y');
   CATCHING(thrown, base58_to_binary(r, std::string_view(b, n)));
   ASSERT(thrown == !ok, "an error exactly when there is another character");
   if (thrown) { COVER("error"); return; }
   COVER("done");
   uint64_t w = 0;
   bool lead = true;
   size_t zeros = 0;
   for (size_t i = 2; i < r.size(); ++i) { w = w << 8 | (uint8_t)r[i]; lead = lead && r[i] == 0; zeros += lead; }
   ASSERT(w == v, "the bytes of the number");
   ASSERT(zeros == z, "one zero byte for each leading '1'");
   ASSERT(r[0] == 'x' && r[1] == 'y', "what was there before is kept");
}
