#include "vp.hpp"
#include <array>
#include <eosio/fixed_bytes.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_key.hpp>
using namespace eosio;
// big-endian word i of the byte string b (zero padded on the right)
template <typename W, size_t Size> static W be(const uint8_t* b, size_t i) {
   W w = 0;
   for (size_t k = 0; k < sizeof(W); ++k) { size_t j = i * sizeof(W) + k; w = (W)(((uint64_t)w << 8) | (j < Size ? b[j] : 0)); }
   return w;
}
template <size_t Size, typename Word> static void codec() {
   using FB = fixed_bytes<Size, Word>;
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   input_stream st{p, n};
   FB v;
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == (n < Size), "decoding needs exactly Size bytes");
   ASSERT(st.end == p + n && st.pos == (thrown ? st.pos : p + Size) && st.pos >= p && st.pos <= st.end, "consumes Size bytes, never leaves the input");
   if (thrown) { COVER("short"); return; }
   COVER("ok");
   const uint8_t* b = (const uint8_t*)p;
   for (size_t i = 0; i < FB::num_words(); ++i) ASSERT(v.value[i] == (be<Word, Size>(b, i)), "words are the bytes in big-endian order");
   auto bytes = v.extract_as_byte_array();
   for (size_t i = 0; i < Size; ++i) ASSERT(bytes[i] == b[i], "the byte array is the serialized form");
   char out[Size + 4];
   fixed_buf_stream os(out, Size);
   to_bin(v, os);
   ASSERT(os.pos == out + Size, "encoding takes Size bytes");
   for (size_t i = 0; i < Size; ++i) ASSERT((uint8_t)out[i] == b[i], "encoding gives back the bytes");
   char key[Size + 4];
   fixed_buf_stream ks(key, Size);
   to_key(v, ks);
   ASSERT(ks.pos == key + Size, "key takes Size bytes");
   for (size_t i = 0; i < Size; ++i) ASSERT((uint8_t)key[i] == b[i], "the key is the byte string");
   size_stream ss; to_bin(v, ss);
   ASSERT(ss.size == Size, "size");
}
template <size_t Size, typename Word> static void order() {
   using FB = fixed_bytes<Size, Word>;
   std::array<uint8_t, Size> a, b;
   for (size_t i = 0; i < Size; ++i) { a[i] = ND(uint8_t, "a"); b[i] = ND(uint8_t, "b"); }
   FB x(a), y(b);
   int c = 0;
   for (size_t i = 0; i < Size; ++i) if (!c && a[i] != b[i]) c = a[i] < b[i] ? -1 : 1;
   COVER("done");
   ASSERT((x == y) == (c == 0) && (x != y) == (c != 0), "equality is byte equality");
   ASSERT((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "order is the order of the byte strings");
}
template <size_t Size, typename Word, typename T> static void words() {
   using FB = fixed_bytes<Size, Word>;
   constexpr size_t N = (Size + sizeof(T) - 1) / sizeof(T);
   std::array<T, N> a;
   for (size_t i = 0; i < N; ++i) a[i] = ND(T, "a");
   FB x(a);
   COVER("done");
   auto back = x.template extract_as_word_array<T>();
   ASSERT(back.size() == N, "word count");
   for (size_t i = 0; i < N; ++i) {
      T m = ~T(0);
      // bytes beyond Size are padding
      if ((i + 1) * sizeof(T) > Size) m = (T)(m << (8 * ((i + 1) * sizeof(T) - Size)));
      ASSERT((back[i] & m) == (a[i] & m), "words are kept");
   }
   auto bytes = x.extract_as_byte_array();
   for (size_t j = 0; j < Size; ++j) ASSERT(bytes[j] == (uint8_t)(a[j / sizeof(T)] >> (8 * (sizeof(T) - 1 - j % sizeof(T)))), "bytes of the words, highest first");
}
//@ C18 C04 C05
PROOF(checksum160_codec) { codec<20, uint32_t>(); }
//@ C18 C04 C05
PROOF(checksum256_codec) { codec<32, uint64_t>(); }
//@ C18 C04 C05
PROOF(checksum512_codec) { codec<64, uint64_t>(); }
//@ C18
PROOF(checksum160_order) { order<20, uint32_t>(); }
//@ C18
PROOF(checksum256_order) { order<32, uint64_t>(); }
//@ C18
PROOF(checksum512_order) { order<64, uint64_t>(); }
//@ C18 C05
PROOF(odd_size_codec) { codec<33, uint64_t>(); codec<5, uint32_t>(); }
//@ C18
PROOF(odd_size_order) { order<13, uint64_t>(); }
//@ C18
PROOF(words_8) { words<32, uint64_t, uint8_t>(); words<20, uint32_t, uint8_t>(); words<64, uint64_t, uint8_t>(); }
//@ C18
PROOF(words_16) { words<32, uint64_t, uint16_t>(); words<20, uint32_t, uint16_t>(); }
//@ C18
PROOF(words_32) { words<32, uint64_t, uint32_t>(); words<20, uint32_t, uint32_t>(); words<64, uint64_t, uint32_t>(); }
//@ C18
PROOF(words_64) { words<32, uint64_t, uint64_t>(); words<20, uint32_t, uint64_t>(); words<64, uint64_t, uint64_t>(); }
//@ C18
PROOF(words_128) { words<32, uint64_t, unsigned __int128>(); words<64, uint64_t, unsigned __int128>(); }
//@ C18
PROOF(partial_array) {
   // a shorter array fills the leading bytes, the rest is zero
   std::array<uint8_t, 7> a;
   for (auto& x : a) x = ND(uint8_t, "a");
   fixed_bytes<32> v(a);
   auto bytes = v.extract_as_byte_array();
   COVER("done");
   for (size_t i = 0; i < 32; ++i) ASSERT(bytes[i] == (i < 7 ? a[i] : 0), "prefix then zeros");
   uint8_t c[3] = {ND(uint8_t, "c"), ND(uint8_t, "c"), ND(uint8_t, "c")};
   fixed_bytes<20, uint32_t> w(c);
   auto wb = w.extract_as_byte_array();
   for (size_t i = 0; i < 20; ++i) ASSERT(wb[i] == (i < 3 ? c[i] : 0), "prefix then zeros");
   fixed_bytes<32> z;
   ASSERT(z.value[0] == 0 && z.value[1] == 0 && z.value[2] == 0 && z.value[3] == 0, "default is zero");
}
// shorter sources are padded with zero bytes on the right, longer lists are cut
template <size_t Size, typename Word, typename T, size_t N> static void partial() {
   using FB = fixed_bytes<Size, Word>;
   std::array<T, N> a; T c[N];
   for (size_t i = 0; i < N; ++i) a[i] = c[i] = ND(T, "a");
   FB x(a), y(c);
   COVER("done");
   auto bx = x.extract_as_byte_array(), by = y.extract_as_byte_array();
   for (size_t j = 0; j < Size; ++j) {
      uint8_t w = j / sizeof(T) < N ? (uint8_t)(a[j / sizeof(T)] >> (8 * (sizeof(T) - 1 - j % sizeof(T)))) : 0;
      ASSERT(bx[j] == w, "missing elements are zero");
      ASSERT(by[j] == w, "C arrays likewise");
   }
}
//@ C18
PROOF(partial_sources) {
   partial<32, uint64_t, uint64_t, 2>(); partial<32, uint64_t, uint32_t, 7>(); partial<20, uint32_t, uint64_t, 1>(); partial<20, uint32_t, uint8_t, 13>();
   uint8_t a = ND(uint8_t, "x"), b = ND(uint8_t, "y"), c = ND(uint8_t, "z");
   checksum160 v{a, b, c};
   auto w = v.extract_as_byte_array();
   for (size_t j = 0; j < 20; ++j) ASSERT(w[j] == (j == 0 ? a : j == 1 ? b : j == 2 ? c : 0), "initializer list");
}
//@ C18
PROOF(word_sequence) {
   uint64_t a = ND(uint64_t, "a"), b = ND(uint64_t, "b"), c = ND(uint64_t, "c"), d = ND(uint64_t, "d");
   auto v = checksum256::make_from_word_sequence<uint64_t>(a, b, c, d);
   COVER("done");
   ASSERT(v.value[0] == a && v.value[1] == b && v.value[2] == c && v.value[3] == d, "words in order");
   auto w = v.extract_as_word_array<uint32_t>();
   ASSERT(w[0] == uint32_t(a >> 32) && w[1] == uint32_t(a) && w[6] == uint32_t(d >> 32) && w[7] == uint32_t(d), "halves, high first");
}
