#include "vp.hpp"
#include <eosio/abieos_ripemd160.hpp>
#include "ripemd_spec.hpp"
using namespace abieos_ripemd160;
//@ C15
PROOF(compress_is_the_standard_block_function) {
   ripemd160_state s;
   ripemd160_init(&s);
   uint32_t h[5], w[16];
   for (int i = 0; i < 5; ++i) s.h[i] = h[i] = ND(uint32_t, "h");
   for (int i = 0; i < 16; ++i) {
      w[i] = 0;
      for (int j = 0; j < 4; ++j) { uint8_t b = ND(uint8_t, "b"); s.buf.b[4 * i + j] = b; w[i] |= (uint32_t)b << (8 * j); }
   }
   s.bufpos = 64;
   uint64_t len = s.length = ND(uint64_t, "len");
   ripemd160_compress(&s);
   spec::block(h, w);
   COVER("done");
   for (int i = 0; i < 5; ++i) ASSERT(s.h[i] == h[i], "each chaining word is the standard's");
   for (int i = 0; i < 64; ++i) ASSERT(s.buf.b[i] == 0, "the buffer is cleared");
   ASSERT(s.bufpos == 0 && s.length == len && s.magic == ripemd160_magic, "position reset, length and mark kept");
}
//@ C15
PROOF(init_is_the_standard_start) {
   ripemd160_state s;
   ripemd160_init(&s);
   COVER("done");
   const uint8_t start[20] = {0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10, 0xf0, 0xe1, 0xd2, 0xc3};
   for (int i = 0; i < 20; ++i) ASSERT(((uint8_t*)s.h)[i] == start[i], "standard initial value");
   for (int i = 0; i < 64; ++i) ASSERT(s.buf.b[i] == 0, "buffer is clear");
   ASSERT(s.bufpos == 0 && s.length == 0 && s.magic == ripemd160_magic, "nothing hashed");
}
//@ C15
PROOF(published_test_vectors) {
   // the definition used above gives the digests its authors published
   uint8_t out[20];
   spec::hash((const uint8_t*)"", 0, out);
   COVER("done");
   ASSERT(memcmp(out, "\x9c\x11\x85\xa5\xc5\xe9\xfc\x54\x61\x28\x08\x97\x7e\xe8\xf5\x48\xb2\x25\x8d\x31", 20) == 0, "empty message");
   spec::hash((const uint8_t*)"abc", 3, out);
   ASSERT(memcmp(out, "\x8e\xb2\x08\xf7\xe0\x5d\x98\x7a\x9b\x04\x4a\x8e\x98\xc6\xb0\x87\xf1\x5a\x0b\xfc", 20) == 0, "abc");
}
