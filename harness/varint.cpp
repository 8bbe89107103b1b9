#include "vp.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
using namespace eosio;

// ---- specification: little-endian base-128 ------------------------------------------
struct Dec { bool ok; size_t used; uint64_t val; };
static Dec spec_decode(const char* p, size_t n, unsigned maxb) {
   Dec d{false, 0, 0};
   for (unsigned i = 0; i < maxb; ++i) {
      if (i >= n) return d;
      uint8_t b = p[i];
      d.val |= (uint64_t)(b & 0x7f) << (7 * i);
      if (!(b & 0x80)) { d.ok = true; d.used = i + 1; return d; }
   }
   return d;
}
//@ C03 C04
PROOF(varuint32_decode) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_decode(p, n, 5);
   input_stream st{p, n};
   uint32_t v = 0;
   CATCHING(thrown, varuint32_from_bin(v, st));
   ASSERT(thrown == !d.ok, "accepted exactly when terminated within 5 bytes and within the input");
   if (!thrown) { COVER("ok"); ASSERT(v == (uint32_t)d.val, "decoded value"); ASSERT(st.pos == p + d.used, "bytes consumed"); }
   else { COVER("rejected"); }
   ASSERT(st.end == p + n && st.pos >= p && st.pos <= st.end, "position stays inside the input");
}
//@ C03 C04
PROOF(varuint64_decode) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_decode(p, n, 10);
   input_stream st{p, n};
   uint64_t v = 0;
   CATCHING(thrown, varuint64_from_bin(v, st));
   ASSERT(thrown == !d.ok, "accepted exactly when terminated within 10 bytes and within the input");
   if (!thrown) { COVER("ok"); ASSERT(v == d.val, "decoded value"); ASSERT(st.pos == p + d.used, "bytes consumed"); }
   else { COVER("rejected"); }
   ASSERT(st.end == p + n && st.pos >= p && st.pos <= st.end, "position stays inside the input");
}
//@ C03 C04
PROOF(varint32_decode) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_decode(p, n, 5);
   input_stream st{p, n};
   int32_t v = 0;
   CATCHING(thrown, varint32_from_bin(v, st));
   ASSERT(thrown == !d.ok, "accepted exactly when terminated within 5 bytes and within the input");
   if (!thrown) {
      COVER("ok");
      uint32_t u = (uint32_t)d.val;
      ASSERT((uint32_t)v == ((u >> 1) ^ (0u - (u & 1))), "zigzag value");
      ASSERT(st.pos == p + d.used, "bytes consumed");
   }
}
//@ C03
PROOF(varuint32_encode) {
   uint64_t v = ND(uint64_t, "v");
   size_t cap = vp::range("cap", 0, 8);
   char* p = vp::buf("o", cap, "");
   fixed_buf_stream o{p, cap};
   size_stream ss;
   CATCHING(t0, varuint32_to_bin(v, ss));
   CATCHING(t1, varuint32_to_bin(v, o));
   size_t len = 1; for (int i = 1; i < 5; ++i) if (v >> (7 * i)) len = i + 1;
   if (v >> 32) { COVER("big"); ASSERT(t0 && t1, "values above 32 bits are rejected"); ASSERT(o.pos == p && ss.size == 0, "nothing written for a rejected value"); }
   else {
      ASSERT(!t0 && ss.size == len, "minimal length");
      ASSERT(t1 == (len > cap), "overrun exactly when the buffer is too small");
      if (!t1) {
         COVER("ok");
         ASSERT(o.pos == p + len, "bytes written");
         Dec d = spec_decode(p, len, 5);
         ASSERT(d.ok && d.used == len && d.val == v, "decodes back");
         input_stream in{p, len};
         uint32_t back = ~(uint32_t)v;
         CATCHING(t2, varuint32_from_bin(back, in));
         ASSERT(!t2 && back == (uint32_t)v && in.pos == p + len, "round trip through the real decoder");
      }
   }
}
//@ C03
PROOF(push_varuint) {
   uint32_t v = ND(uint32_t, "v");
   std::vector<char> bin;
   bin.push_back('x');
   push_varuint32(bin, v);
   size_t len = 1; for (int i = 1; i < 5; ++i) if (v >> (7 * i)) len = i + 1;
   COVER("done");
   ASSERT(bin.size() == len + 1 && bin[0] == 'x', "appends the minimal encoding");
   Dec d = spec_decode(bin.data() + 1, len, 5);
   ASSERT(d.ok && d.used == len && d.val == v, "decodes back");
}
