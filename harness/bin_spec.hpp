// specification side of the binary codec: little-endian scalars and base-128 lengths
#pragma once
#include "vp.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
struct Dec { bool ok; size_t used; uint64_t val; };
static Dec spec_varuint(const char* p, size_t n, unsigned maxb) {
   Dec d{false, 0, 0};
   for (unsigned i = 0; i < maxb; ++i) {
      if (i >= n) return d;
      uint8_t b = p[i];
      d.val |= (uint64_t)(b & 0x7f) << (7 * i);
      if (!(b & 0x80)) { d.ok = true; d.used = i + 1; return d; }
   }
   return d;
}
static inline size_t varlen(uint64_t v) { return v >> 28 ? 5 : v >> 21 ? 4 : v >> 14 ? 3 : v >> 7 ? 2 : 1; }
// a length whose encoding takes h bytes
static inline uint64_t draw_len(const char* nm, int h) {
   return vp::range(nm, h == 1 ? 0 : uint64_t(1) << (7 * (h - 1)), h == 5 ? 0xffffffffull : (uint64_t(1) << (7 * h)) - 1);
}
template <typename T> static T le(const char* p) { T v; memcpy(&v, p, sizeof v); return v; }
