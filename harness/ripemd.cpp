//@flags @stub:ripemd160_compress=stub_compress
#include "vp.hpp"
#include <eosio/abieos_ripemd160.hpp>
#include "ripemd_spec.hpp"
using namespace abieos_ripemd160;
// Here calls of ripemd160_compress go to its contract (proved of the body in ripemd_block.cpp): it takes a full
// buffer, replaces the chaining words and clears the buffer.  The contract also notes whether the buffer of the
// q-th block holds, at byte j, what it should; q and j are arbitrary.
static struct { uint64_t done, q, j; // done: bytes hashed
   bool ok, full; uint8_t want; uint32_t h[5]; } g;
extern "C" __attribute__((noinline)) void stub_compress(ripemd160_state* s) {
   g.full = g.full & (s->bufpos == 64) & (s->magic == ripemd160_magic);
   if (g.done == 64 * g.q) g.ok = g.ok & (s->buf.b[g.j] == g.want);
   g.done += 64;
   memcpy(s->h, g.h, 20);
   memset(&s->buf, 0, 64);
   s->bufpos = 0;
}
// a state that has absorbed some bytes: b of them in the buffer, zeros after them
static void some_state(ripemd160_state& s, unsigned b, char* old) {
   ripemd160_init(&s);
#pragma clang loop unroll(full)
   for (int i = 0; i < 5; ++i) { s.h[i] = ND(uint32_t, "h"); g.h[i] = ND(uint32_t, "h2"); }
   memcpy(s.buf.b, old, b);
   s.bufpos = b;
   s.length = ND(uint64_t, "len");
   g.done = 0; g.ok = g.full = true;
}
//@ C15
//@opts {"cut":true,"cut_after":2,"small":true,"peel":1,"split":{"first":[0,1],"j":[0,63]}}
PROOF(update_any_length) {
   ripemd160_state s;
   size_t b = vp::range("b", 0, 63), n = vp::range("n", 0, 0x7fffffff);
   char* old = vp::buf("old", 64); char* p = vp::buf("p", n, "");
   some_state(s, b, old);
   uint64_t len = s.length;
   uint32_t h0[5];
   memcpy(h0, s.h, 20);
   g.j = vp::range("j", 0, 63);
   g.q = vp::range("q", 0, 0x7fffffff / 64);
   ASSUME(64 * g.q + g.j < b + n);
   if (vp::range("first", 0, 1)) { g.q = 0; } else ASSUME(g.q > 0);
   uint64_t at = 64 * g.q + g.j; // position in the old buffer followed by the new bytes
   if (vp::range("isold", 0, 1)) { ASSUME(at < b); g.want = old[at]; } else { ASSUME(at >= b); g.want = p[at - b]; }
   ripemd160_update(&s, p, (int)n);
   COVER("done");
   if (!__vp_symbolic()) { // run natively, the real compress is called: compare with the definition
      std::string m(old, b);
      m.append(p, n);
      for (size_t k = 0; k + 64 <= m.size(); k += 64) { uint32_t w[16]; memcpy(w, m.data() + k, 64); spec::block(h0, w); }
      ASSERT(memcmp(s.h, h0, 20) == 0, "every whole block is hashed, once");
      ASSERT(s.bufpos == m.size() % 64 && memcmp(s.buf.b, m.data() + m.size() / 64 * 64, s.bufpos) == 0, "the rest is in the buffer");
      ASSERT(s.length == len + 8 * n && s.magic == ripemd160_magic, "bit count");
      return;
   }
   ASSERT(g.full && g.ok, "each block hashed is the next 64 bytes");
   ASSERT(g.done == (b + n) / 64 * 64, "every whole block is hashed, once");
   ASSERT(s.bufpos == (b + n) % 64 && s.length == len + 8 * n && s.magic == ripemd160_magic, "position and bit count");
   if (64 * g.q == g.done) ASSERT(s.buf.b[g.j] == g.want, "the rest is in the buffer");
   uint64_t z = vp::range("z", 0, 63);
   ASSERT(z < s.bufpos || s.buf.b[z] == 0, "zeros after it");
}
//@ C15
//@opts {"split":{"b":[0,63]}}
PROOF(digest_pads_as_the_standard) {
   ripemd160_state s;
   size_t b = vp::range("b", 0, 63);
   char* old = vp::buf("old", 64);
   some_state(s, b, old);
   g.j = vp::range("j", 0, 63);
   g.q = vp::range("q", 0, 1);
   uint64_t blocks = b < 56 ? 1 : 2, at = 64 * g.q + g.j, lenat = 64 * blocks - 8;
   g.want = at < b ? old[at] : at == b ? 0x80 : at < lenat ? 0 : (uint8_t)(s.length >> (8 * ((at - lenat) & 7)));
   ripemd160_state before = s;
   unsigned char out[20];
   int r = ripemd160_digest(&s, out);
   COVER("done");
   ASSERT(r == 1, "succeeds");
   if (!__vp_symbolic()) {
      uint8_t m[128] = {};
      memcpy(m, old, b);
      m[b] = 0x80;
      memcpy(m + lenat, &before.length, 8);
      for (size_t k = 0; k < blocks; ++k) { uint32_t w[16]; memcpy(w, m + 64 * k, 64); spec::block(before.h, w); }
      ASSERT(memcmp(out, before.h, 20) == 0, "the digest");
      return;
   }
   ASSERT(g.full && g.done == 64 * blocks, "one or two final blocks");
   if (g.q < blocks) ASSERT(g.ok, "the bytes, 0x80, zeros, the bit count low byte first");
   for (int i = 0; i < 20; ++i) ASSERT(out[i] == (uint8_t)(g.h[i / 4] >> (8 * (i % 4))), "the chaining words, low byte first");
   for (int i = 0; i < 5; ++i) ASSERT(s.h[i] == before.h[i], "state unchanged");
   ASSERT(s.bufpos == b && s.length == before.length && s.magic == ripemd160_magic, "state unchanged");
   for (unsigned i = 0; i < 64; ++i) ASSERT(s.buf.b[i] == (i < b ? (uint8_t)old[i] : 0), "state unchanged");
}
