#include "bin_spec.hpp"
#include <array>
#include <eosio/reflection.hpp>
#include <eosio/operators.hpp>
#include <eosio/opaque.hpp>
#include <eosio/convert.hpp>
#include <eosio/name.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/crypto.hpp>
using namespace eosio;
namespace t {
struct sub { int16_t p = 0; uint8_t q = 0; };
EOSIO_REFLECT(sub, p, q);
EOSIO_COMPARE(sub);
struct rec { uint32_t a = 0; sub b; int8_t c = 0; };
EOSIO_REFLECT(rec, a, b, c);
EOSIO_COMPARE(rec);
struct derived : sub { uint16_t d = 0; };
EOSIO_REFLECT(derived, base sub, d);
EOSIO_COMPARE(derived);
} // namespace t
template <typename T> static int cmp(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
template <typename T> static void ops(const T& a, const T& b, int c) {
   COVER("done");
   ASSERT((a == b) == (c == 0) && (a != b) == (c != 0), "equality: all fields equal");
   ASSERT((a < b) == (c < 0) && (a > b) == (c > 0), "order: first differing field decides");
   ASSERT((a <= b) == (c <= 0) && (a >= b) == (c >= 0), "weak order");
}
static t::sub dsub(const char* n) { t::sub s; s.p = ND(int16_t, n); s.q = ND(uint8_t, n); return s; }
static int csub(const t::sub& a, const t::sub& b) { int c = cmp(a.p, b.p); return c ? c : cmp(a.q, b.q); }
//@ C23
PROOF(struct_order) {
   t::sub x = dsub("x"), y = dsub("y");
   ops(x, y, csub(x, y));
   t::rec a, b;
   a.a = ND(uint32_t, "a"); a.b = dsub("ab"); a.c = ND(int8_t, "ac");
   b.a = ND(uint32_t, "b"); b.b = dsub("bb"); b.c = ND(int8_t, "bc");
   int c = cmp(a.a, b.a); if (!c) c = csub(a.b, b.b); if (!c) c = cmp(a.c, b.c);
   ops(a, b, c);
   t::derived d, e; d.p = ND(int16_t, "dp"); d.q = ND(uint8_t, "dq"); d.d = ND(uint16_t, "dd"); e.p = ND(int16_t, "ep"); e.q = ND(uint8_t, "eq"); e.d = ND(uint16_t, "ed");
   c = csub(d, e); if (!c) c = cmp(d.d, e.d);
   ops(d, e, c);
}
//@ C23
PROOF(chain_type_order) {
   name a{ND(uint64_t, "a")}, b{ND(uint64_t, "b")};
   ops(a, b, cmp(a.value, b.value));
   symbol_code c{ND(uint64_t, "c")}, d{ND(uint64_t, "d")};
   ops(c, d, cmp(c.value, d.value));
   symbol e{ND(uint64_t, "e")}, f{ND(uint64_t, "f")};
   ops(e, f, cmp(e.value, f.value));
   time_point g{microseconds{ND(int64_t, "g")}}, h{microseconds{ND(int64_t, "h")}};
   ops(g, h, cmp(g.elapsed._count, h.elapsed._count));
   microseconds i{ND(int64_t, "i")}, j{ND(int64_t, "j")};
   ops(i, j, cmp(i._count, j._count));
   block_timestamp k{ND(uint32_t, "k")}, l{ND(uint32_t, "l")};
   ops(k, l, cmp(k.slot, l.slot));
}
// ---- opaque: a length-prefixed blob decoded on demand
//@ C25 C04
PROOF(opaque_blob) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 10);
   input_stream st{p, n};
   opaque<t::sub> o;
   CATCHING(thrown, from_bin(o, st));
   ASSERT(thrown == !(d.ok && d.val <= n - d.used), "a length and that many bytes");
   ASSERT(st.pos >= p && st.pos <= p + n && st.end == p + n, "position");
   if (thrown) return;
   ASSERT(st.pos == p + d.used + d.val, "skips the whole blob");
   ASSERT(o.empty() == (d.val == 0), "emptiness");
   size_stream ss;
   CATCHING(big, to_bin(o, ss));
   ASSERT(big == (d.val >> 32 != 0), "encodes lengths up to 32 bits");
   if (!big) ASSERT(ss.size == varlen(d.val) + d.val, "re-encodes the blob");
   t::sub v;
   CATCHING(t2, o.unpack(v));
   ASSERT(t2 == (d.val < 3), "the value must fit in the blob, whatever follows it");
   if (!t2) { COVER("ok"); ASSERT(v.p == le<int16_t>(p + d.used) && v.q == (uint8_t)p[d.used + 2], "value"); ASSERT(o.empty() == (d.val == 3), "rest of the blob is kept"); }
}
//@ C25 C04
PROOF(opaque_list) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 10);
   ASSUME(d.ok && d.val <= n - d.used);
   input_stream st{p, n};
   opaque<std::vector<uint16_t>> o(st);
   Dec k = spec_varuint(p + d.used, d.val, 5);
   size_t num = 0;
   CATCHING(t1, num = o.unpack_size());
   ASSERT(t1 == !k.ok, "the count is inside the blob");
   if (t1) return;
   ASSERT(num == (uint32_t)k.val, "count");
   uint16_t a = 0;
   CATCHING(t2, a = o.unpack_next());
   ASSERT(t2 == (d.val - k.used < 2), "an element needs its bytes inside the blob");
   if (t2) return;
   COVER("one");
   ASSERT(a == le<uint16_t>(p + d.used + k.used), "first element");
   CATCHING(t3, o.unpack_next(a));
   ASSERT(t3 == (d.val - k.used < 4), "the second follows the first");
   if (!t3) ASSERT(a == le<uint16_t>(p + d.used + k.used + 2), "second element");
}
// ---- structure conversion by field name
namespace t {
struct from { uint32_t a = 0; sub s; std::optional<sub> o; uint8_t extra = 0; };
EOSIO_REFLECT(from, a, s, o, extra);
struct to { std::optional<sub> o; sub s; uint32_t a = 0; uint64_t keep = 0; };
EOSIO_REFLECT(to, o, s, a);
struct sub2 { uint8_t q = 0; int16_t p = 0; };
EOSIO_REFLECT(sub2, q, p);
strict_conversion conversion_kind(const sub&, const sub2&);
struct holder { sub s; std::optional<sub> o; uint16_t x = 0; };
EOSIO_REFLECT(holder, s, o, x);
struct holder2 { uint16_t x = 0; std::optional<sub2> o; sub2 s; uint8_t more = 9; };
EOSIO_REFLECT(holder2, x, o, s, more);
widening_conversion conversion_kind(const holder&, const holder2&);
} // namespace t
//@ C25
//@opts {"split":{"has":[0,1]}}
PROOF(convert_by_name) {
   bool has = vp::range("has", 0, 1);
   t::holder h; h.s = dsub("s"); h.x = ND(uint16_t, "x");
   if (has) h.o = dsub("o");
   t::holder2 g; g.o = t::sub2{}; g.more = ND(uint8_t, "more");
   uint8_t more = g.more;
   convert(h, g, choose_first);
   COVER("done");
   ASSERT(g.x == h.x && g.s.p == h.s.p && g.s.q == h.s.q && g.more == more, "fields are matched by name, others are left alone");
   ASSERT(g.o.has_value() == has, "optional");
   if (has) ASSERT(g.o->p == h.o->p && g.o->q == h.o->q, "optional value");
   t::holder back; back.o = t::sub{};
   convert(g, back, choose_second);
   ASSERT(back.s == h.s && back.x == h.x && back.o == h.o, "and back");
}
namespace t {
struct wide { uint64_t w = 7; uint8_t q = 0; int16_t p = 0; };
EOSIO_REFLECT(wide, w, q, p);
widening_conversion conversion_kind(const sub&, const wide&);
struct tiny { uint8_t q = 0; };
EOSIO_REFLECT(tiny, q);
narrowing_conversion conversion_kind(const sub&, const tiny&);
} // namespace t
//@ C25
//@opts {"split":{"has":[0,1],"old":[0,1]}}
PROOF(convert_optional) {
   bool has = vp::range("has", 0, 1), old = vp::range("old", 0, 1);
   std::optional<t::sub> o;
   if (has) o = dsub("o");
   std::optional<t::wide> w;
   if (old) { w.emplace(); w->w = ND(uint64_t, "w"); w->p = ND(int16_t, "wp"); }
   convert(o, w, choose_first);
   std::optional<t::tiny> y;
   if (old) { y.emplace(); y->q = ND(uint8_t, "yq"); }
   convert(o, y, choose_second);
   std::optional<t::sub2> z;
   if (old) { z.emplace(); z->q = ND(uint8_t, "zq"); }
   convert(o, z, choose_first);
   COVER("done");
   ASSERT(w.has_value() == has && y.has_value() == has && z.has_value() == has, "present exactly when the source is");
   if (has) {
      ASSERT(w->p == o->p && w->q == o->q && w->w == 7, "widened: the new field has its default");
      ASSERT(y->q == o->q, "narrowed");
      ASSERT(z->p == o->p && z->q == o->q, "same fields");
   }
}
//@ C25
PROOF(convert_bytes) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   input_stream st{p, n};
   std::vector<char> v(3, 'x');
   convert(st, v, choose_first);
   COVER("done");
   size_t k = vp::range("k", 0, size_t(1) << 36);
   ASSUME(k < n);
   ASSERT(v.size() == n && v[k] == p[k], "the bytes of the stream, nothing else");
}
//@ C25
//@bounded at most 2 elements
//@opts {"split":{"m":[0,2]}}
PROOF(convert_vector) {
   size_t m = vp::range("m", 0, 2);
   std::vector<t::sub> v;
   for (size_t i = 0; i < m; ++i) v.push_back(dsub("e"));
   std::vector<t::sub2> w(1);
   convert(v, w, choose_first);
   COVER("done");
   ASSERT(w.size() == m, "length");
   for (size_t i = 0; i < m; ++i) ASSERT(w[i].p == v[i].p && w[i].q == v[i].q, "elements in order");
   std::variant<t::sub, t::sub2> x = dsub("x");
   t::sub2 y; convert(x, y, choose_second);
   ASSERT(y.p == std::get<0>(x).p && y.q == std::get<0>(x).q, "the alternative held is converted");
}
// a type decoded through another representation
namespace t {
struct wire { int16_t p = 0; uint8_t q = 0; };
EOSIO_REFLECT(wire, p, q);
struct local { uint8_t q = 0; int16_t p = 0; };
EOSIO_REFLECT(local, q, p);
wire serialize_as(const local&);
strict_conversion conversion_kind(const wire&, const local&);
} // namespace t
//@ C25 C04
PROOF(serialize_through) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   input_stream st{p, n};
   t::local v;
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == (n < 3), "size of the wire form");
   if (!thrown) { COVER("ok"); ASSERT(v.p == le<int16_t>(p) && v.q == (uint8_t)p[2] && st.pos == p + 3, "fields by name"); }
}
