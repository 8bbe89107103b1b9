#pragma once
#include <cstdint>
// RIPEMD-160 as published (Dobbertin, Bosselaers, Preneel): message order by the permutations rho and pi,
// rotation amounts by message word
namespace spec {
constexpr int rho_[16] = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
// rotation amount of message word i in round j
constexpr int sh[5][16] = {{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
                           {12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
                           {13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
                           {14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
                           {15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
constexpr uint32_t kl[5] = {0, 0x5A827999u, 0x6ED9EBA1u, 0x8F1BBCDCu, 0xA953FD4Eu};
constexpr uint32_t kr[5] = {0x50A28BE6u, 0x5C4DD124u, 0x6D703EF3u, 0x7A6D76E9u, 0};
struct order {
   int l[5][16], r[5][16];
   constexpr order() : l(), r() {
      for (int i = 0; i < 16; ++i) { l[0][i] = i; r[0][i] = (9 * i + 5) % 16; }
      for (int j = 1; j < 5; ++j)
         for (int i = 0; i < 16; ++i) { l[j][i] = rho_[l[j - 1][i]]; r[j][i] = rho_[r[j - 1][i]]; }
   }
};
constexpr order ord;
inline uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
inline uint32_t f(int j, uint32_t x, uint32_t y, uint32_t z) {
   switch (j) {
      case 0: return x ^ y ^ z;
      case 1: return (x & y) | (~x & z);
      case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z);
      default: return x ^ (y | ~z);
   }
}
inline void block(uint32_t h[5], const uint32_t w[16]) {
   uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], a2 = a, b2 = b, c2 = c, d2 = d, e2 = e;
   for (int j = 0; j < 5; ++j)
      for (int i = 0; i < 16; ++i) {
         uint32_t t = rol(a + f(j, b, c, d) + w[ord.l[j][i]] + kl[j], sh[j][ord.l[j][i]]) + e;
         a = e; e = d; d = rol(c, 10); c = b; b = t;
         t = rol(a2 + f(4 - j, b2, c2, d2) + w[ord.r[j][i]] + kr[j], sh[j][ord.r[j][i]]) + e2;
         a2 = e2; e2 = d2; d2 = rol(c2, 10); c2 = b2; b2 = t;
      }
   uint32_t t = h[1] + c + d2;
   h[1] = h[2] + d + e2; h[2] = h[3] + e + a2; h[3] = h[4] + a + b2; h[4] = h[0] + b + c2; h[0] = t;
}
// a whole message, straight from the definition
inline void hash(const uint8_t* m, uint64_t n, uint8_t out[20]) {
   uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
   uint64_t blocks = (n + 8) / 64 + 1;
   for (uint64_t k = 0; k < blocks; ++k) {
      uint32_t w[16];
      for (int i = 0; i < 16; ++i) {
         w[i] = 0;
         for (int j = 0; j < 4; ++j) {
            uint64_t at = 64 * k + 4 * i + j;
            uint8_t c = at < n ? m[at] : at == n ? 0x80 : at < 64 * blocks - 8 ? 0 : (uint8_t)((8 * n) >> (8 * (at & 7)));
            w[i] |= (uint32_t)c << (8 * j);
         }
      }
      block(h, w);
   }
   for (int i = 0; i < 20; ++i) out[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4)));
}
} // namespace spec
