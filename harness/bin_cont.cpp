#include "bin_spec.hpp"
#include "std_runtime.hpp"
#include <deque>
#include <eosio/reflection.hpp>
#include <eosio/operators.hpp>
using namespace eosio;
struct exp_bytes {
   char d[64]; size_t n = 0;
   template <typename T> exp_bytes& put(T v) { memcpy(d + n, &v, sizeof v); n += sizeof v; return *this; }
};
// `old` puts into it what the target of the decoding held before
template <typename T, typename F> static void both(const T& v, const exp_bytes& e, F old) {
   char out[66];
   fixed_buf_stream os(out, e.n);
   to_bin(v, os);
   ASSERT(os.pos == out + e.n, "size of the encoding");
   for (size_t i = 0; i < e.n; ++i) ASSERT(out[i] == e.d[i], "encoding is the elements in order");
   size_stream ss; to_bin(v, ss);
   ASSERT(ss.size == e.n, "size stream");
   if constexpr (sizeof(*v.begin()) != 4) {
   std::vector<char> vec2;
   vector_stream vs(vec2); to_bin(v, vs);
   ASSERT(vec2.size() == e.n, "vector stream size");
   for (size_t i = 0; i < e.n; ++i) ASSERT(vec2[i] == e.d[i], "vector stream bytes");
   }
   for (size_t n = 0; n <= e.n; ++n) {
      input_stream st(out, n);
      T back;
      old(back);
      CATCHING(thrown, from_bin(back, st));
      ASSERT(thrown == (n < e.n), "truncated input is rejected, complete input accepted");
      ASSERT(st.end == out + n && st.pos >= out && st.pos <= st.end, "position");
      if (!thrown) { COVER("ok"); ASSERT(st.pos == out + e.n, "consumes its bytes"); ASSERT(back.size() == v.size() && std::equal(back.begin(), back.end(), v.begin()), "same value, nothing of the old one"); }
   }
}
//@ C04 C05 C06
//@bounded at most 3 elements
//@opts {"split":{"m":[0,3]}}
PROOF(list_u16) {
   size_t m = vp::range("m", 0, 3);
   std::list<uint16_t> v; exp_bytes e; e.put<uint8_t>(m);
   for (size_t i = 0; i < m; ++i) { uint16_t x = ND(uint16_t, "x"); v.push_back(x); e.put(x); }
   both(v, e, [](auto& b) { b.push_back(ND(uint16_t, "old")); });
}
//@ C04 C05 C06
//@bounded at most 3 elements
//@opts {"split":{"m":[0,3]}}
PROOF(deque_u16) {
   size_t m = vp::range("m", 0, 3);
   std::deque<uint16_t> v; exp_bytes e; e.put<uint8_t>(m);
   for (size_t i = 0; i < m; ++i) { uint16_t x = ND(uint16_t, "x"); v.push_back(x); e.put(x); }
   both(v, e, [](auto& b) { b.push_back(ND(uint16_t, "old")); });
}
//@ C04 C05 C06
//@bounded at most 2 elements
//@opts {"split":{"m":[0,2]}}
PROOF(set_u16) {
   size_t m = vp::range("m", 0, 2);
   std::set<uint16_t> v; exp_bytes e; e.put<uint8_t>(m);
   uint16_t last = 0;
   for (size_t i = 0; i < m; ++i) { uint16_t x = ND(uint16_t, "x"); if (i) ASSUME(x > last); last = x; v.insert(v.end(), x); e.put(x); }
   both(v, e, [](auto& b) { b.insert(ND(uint16_t, "old")); });
}
//@ C04 C05 C06
//@bounded at most 2 elements
//@opts {"split":{"m":[0,2]}}
PROOF(map_u16_u8) {
   size_t m = vp::range("m", 0, 2);
   std::map<uint16_t, uint8_t> v; exp_bytes e; e.put<uint8_t>(m);
   uint16_t last = 0;
   for (size_t i = 0; i < m; ++i) { uint16_t x = ND(uint16_t, "x"); uint8_t y = ND(uint8_t, "y"); if (i) ASSUME(x > last); last = x; v.emplace_hint(v.end(), x, y); e.put(x).put(y); }
   both(v, e, [](auto& b) { b.emplace(ND(uint16_t, "old"), 1); });
}
