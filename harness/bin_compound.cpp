#include "bin_spec.hpp"
#include <array>
#include <eosio/reflection.hpp>
#include <eosio/operators.hpp>
using namespace eosio;
namespace t {
struct inner { uint16_t a = 0; uint8_t b = 0; bool operator==(const inner& o) const { return a == o.a && b == o.b; } };
EOSIO_REFLECT(inner, a, b);
struct base { uint32_t z = 0; };
EOSIO_REFLECT(base, z);
struct outer : base { std::optional<uint8_t> o; inner i; std::variant<uint8_t, inner, uint64_t> v; uint32_t last = 0; };
EOSIO_REFLECT(outer, base base, o, i, v, last);
} // namespace t
// expected encoding, built from the parts in order
struct exp_bytes {
   char d[64]; size_t n = 0;
   template <typename T> exp_bytes& put(T v) { memcpy(d + n, &v, sizeof v); n += sizeof v; return *this; }
};
template <typename T, typename Eq> static void both(const T& v, const exp_bytes& e, Eq same) {
   char out[66];
   fixed_buf_stream os(out, e.n);
   to_bin(v, os);
   ASSERT(os.pos == out + e.n, "size of the encoding");
   for (size_t i = 0; i < e.n; ++i) ASSERT(out[i] == e.d[i], "encoding is the parts in order");
   size_stream ss; to_bin(v, ss);
   ASSERT(ss.size == e.n, "size stream");
   std::vector<char> vec; vec.push_back('p');
   convert_to_bin(v, vec);
   ASSERT(vec.size() == e.n + 1 && vec[0] == 'p', "convert_to_bin appends");
   for (size_t i = 0; i < e.n; ++i) ASSERT(vec[i + 1] == e.d[i], "same bytes");
   std::vector<char> vec2;
   vector_stream vs(vec2); to_bin(v, vs);
   ASSERT(vec2.size() == e.n, "vector stream size");
   for (size_t i = 0; i < e.n; ++i) ASSERT(vec2[i] == e.d[i], "vector stream bytes");
   for (size_t n = 0; n <= e.n + 1; ++n) {
      input_stream st(out, n);
      T back{};
      CATCHING(thrown, from_bin(back, st));
      ASSERT(thrown == (n < e.n), "truncated input is rejected, complete input accepted");
      ASSERT(st.end == out + n && st.pos >= out && st.pos <= st.end, "position");
      if (!thrown) { COVER("ok"); ASSERT(st.pos == out + e.n, "consumes its bytes"); ASSERT(same(back, v), "same value"); }
   }
}
//@ C04 C05 C06
PROOF(bool_value) {
   bool b = vp::range("b", 0, 1);
   exp_bytes e; e.put<uint8_t>(b);
   both(b, e, [](bool x, bool y) { return x == y; });
}
//@ C04 C05 C06
//@opts {"split":{"has":[0,1]}}
PROOF(optional_u32) {
   bool has = vp::range("has", 0, 1);
   std::optional<uint32_t> v; exp_bytes e; e.put<uint8_t>(has);
   if (has) { v = ND(uint32_t, "x"); e.put(*v); }
   both(v, e, [](auto& x, auto& y) { return x == y; });
}
//@ C04 C05
PROOF(optional_replaces) {
   char d[1] = {0};
   input_stream st(d, 1);
   std::optional<uint32_t> v = ND(uint32_t, "x");
   from_bin(v, st);
   COVER("done");
   ASSERT(!v, "absent clears the old value");
}
//@ C04 C05 C06
//@opts {"split":{"k":[0,2]}}
PROOF(variant3) {
   int k = vp::range("k", 0, 2);
   std::variant<uint8_t, t::inner, uint64_t> v; exp_bytes e; e.put<uint8_t>(k);
   if (k == 0) { uint8_t x = ND(uint8_t, "x"); v = x; e.put(x); }
   if (k == 1) { t::inner x; x.a = ND(uint16_t, "a"); x.b = ND(uint8_t, "b"); v = x; e.put(x.a).put(x.b); }
   if (k == 2) { uint64_t x = ND(uint64_t, "x"); v = x; e.put(x); }
   both(v, e, [](auto& x, auto& y) { return x == y; });
}
//@ C04 C05
PROOF(variant_index) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 5);
   input_stream st{p, n};
   std::variant<uint8_t, uint32_t> v;
   CATCHING(thrown, from_bin(v, st));
   uint32_t k = (uint32_t)d.val;
   bool ok = d.ok && (k == 0 && n - d.used >= 1 || k == 1 && n - d.used >= 4);
   ASSERT(thrown == !ok, "a known index followed by that alternative");
   ASSERT(st.pos >= p && st.pos <= p + n && st.end == p + n, "position");
   if (thrown) { COVER("bad"); return; }
   COVER("ok");
   ASSERT(v.index() == k && st.pos == p + d.used + (k ? 4 : 1), "alternative and bytes consumed");
   if (k == 0) ASSERT(std::get<0>(v) == (uint8_t)p[d.used], "value"); else ASSERT(std::get<1>(v) == le<uint32_t>(p + d.used), "value");
}
//@ C04 C05 C06
PROOF(pair_tuple) {
   std::pair<uint16_t, t::inner> v; v.first = ND(uint16_t, "f"); v.second.a = ND(uint16_t, "a"); v.second.b = ND(uint8_t, "b");
   exp_bytes e; e.put(v.first).put(v.second.a).put(v.second.b);
   both(v, e, [](auto& x, auto& y) { return x == y; });
   std::tuple<uint8_t, uint32_t, bool> w{ND(uint8_t, "w0"), ND(uint32_t, "w1"), vp::range("w2", 0, 1)};
   exp_bytes g; g.put(std::get<0>(w)).put(std::get<1>(w)).put(std::get<2>(w));
   both(w, g, [](auto& x, auto& y) { return x == y; });
}
//@ C04 C05 C06
PROOF(arrays) {
   std::array<uint16_t, 3> v; exp_bytes e;
   for (auto& x : v) { x = ND(uint16_t, "x"); e.put(x); }
   both(v, e, [](auto& x, auto& y) { return x == y; });
   std::array<t::inner, 2> w; exp_bytes g;
   for (auto& x : w) { x.a = ND(uint16_t, "a"); x.b = ND(uint8_t, "b"); g.put(x.a).put(x.b); }
   both(w, g, [](auto& x, auto& y) { return x == y; });
}
struct carr { uint32_t a[3]; t::inner b[2]; };
EOSIO_REFLECT(carr, a, b);
//@ C04 C05 C06
PROOF(c_arrays) {
   carr v; exp_bytes e; e.put<uint8_t>(3);
   for (auto& x : v.a) { x = ND(uint32_t, "x"); e.put(x); }
   e.put<uint8_t>(2);
   for (auto& x : v.b) { x.a = ND(uint16_t, "a"); x.b = ND(uint8_t, "b"); e.put(x.a).put(x.b); }
   both(v, e, [](auto& x, auto& y) { return x.a[0] == y.a[0] && x.a[1] == y.a[1] && x.a[2] == y.a[2] && x.b[0] == y.b[0] && x.b[1] == y.b[1]; });
}
//@ C04 C05
PROOF(c_array_count) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 5);
   input_stream st{p, n};
   uint16_t v[2], w[1];
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == !(d.ok && (uint32_t)d.val == 2 && n - d.used >= 4), "the count must be the array's");
   ASSERT(st.pos >= p && st.pos <= p + n, "position");
   if (!thrown) { COVER("ok"); ASSERT(v[0] == le<uint16_t>(p + d.used) && v[1] == le<uint16_t>(p + d.used + 2) && st.pos == p + d.used + 4, "elements"); }
}
//@ C04 C05 C06
//@opts {"split":{"k":[0,2],"has":[0,1]}}
PROOF(nested_struct) {
   int k = vp::range("k", 0, 2); bool has = vp::range("has", 0, 1);
   t::outer v; exp_bytes e;
   v.z = ND(uint32_t, "z"); e.put(v.z).put<uint8_t>(has);
   if (has) { v.o = ND(uint8_t, "o"); e.put(*v.o); }
   v.i.a = ND(uint16_t, "ia"); v.i.b = ND(uint8_t, "ib"); e.put(v.i.a).put(v.i.b).put<uint8_t>(k);
   if (k == 0) { uint8_t x = ND(uint8_t, "x"); v.v = x; e.put(x); }
   if (k == 1) { t::inner x; x.a = ND(uint16_t, "a"); x.b = ND(uint8_t, "b"); v.v = x; e.put(x.a).put(x.b); }
   if (k == 2) { uint64_t x = ND(uint64_t, "x"); v.v = x; e.put(x); }
   v.last = ND(uint32_t, "last"); e.put(v.last);
   both(v, e, [](auto& x, auto& y) { return x.z == y.z && x.o == y.o && x.i == y.i && x.v == y.v && x.last == y.last; });
}
//@ C04 C05 C06
//@bounded at most 3 elements, each string at most 2 characters
//@opts {"split":{"m":[0,3],"l0":[0,2]}}
PROOF(vector_of_strings) {
   size_t m = vp::range("m", 0, 3), l0 = vp::range("l0", 0, 2);
   std::vector<std::string> v; exp_bytes e; e.put<uint8_t>(m);
   for (size_t i = 0; i < m; ++i) {
      size_t l = (l0 + i) % 3;
      std::string s; e.put<uint8_t>(l);
      for (size_t j = 0; j < l; ++j) { char c = ND(char, "c"); s.push_back(c); e.put(c); }
      v.push_back(s);
   }
   both(v, e, [](auto& x, auto& y) { return x == y; });
}
//@ C04 C05 C06
//@bounded at most 3 elements
//@opts {"split":{"m":[0,3]}}
PROOF(vector_of_structs) {
   size_t m = vp::range("m", 0, 3);
   std::vector<t::inner> v; exp_bytes e; e.put<uint8_t>(m);
   for (size_t i = 0; i < m; ++i) { t::inner x; x.a = ND(uint16_t, "a"); x.b = ND(uint8_t, "b"); v.push_back(x); e.put(x.a).put(x.b); }
   both(v, e, [](auto& x, auto& y) { return x == y; });
}
