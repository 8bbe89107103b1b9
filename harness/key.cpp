#include "vp.hpp"
#include "std_runtime.hpp"
#include <array>
#include <deque>
#include <eosio/reflection.hpp>
#include <eosio/to_key.hpp>
#include <eosio/name.hpp>
#include <eosio/symbol.hpp>
#include <eosio/operators.hpp>
using namespace eosio;
struct kbuf { char d[48]; size_t n; };
template <typename T> static void mk_key(const T& v, kbuf& k) {
   fixed_buf_stream os(k.d, sizeof(k.d));
   to_key(v, os);
   k.n = os.pos - k.d;
   size_stream ss; to_key(v, ss);
   ASSERT(ss.size == k.n, "size pass agrees");
}
// c is the sign of the comparison of the values
static void key_order(const kbuf& a, const kbuf& b, int c) {
   int r = 0;
   size_t m = a.n < b.n ? a.n : b.n;
   for (size_t i = 0; i < m; ++i) if (!r && a.d[i] != b.d[i]) r = (uint8_t)a.d[i] < (uint8_t)b.d[i] ? -1 : 1;
   COVER("done");
   ASSERT(r == c, "keys are ordered as the values");
   if (c == 0) ASSERT(a.n == b.n, "equal values, equal keys"); // otherwise they differ within both: no key is a prefix of the other
}
template <typename T> static int cmp(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
template <typename T> static void scalar_key() {
   T a = ND(T, "a"), b = ND(T, "b");
   kbuf x, y; mk_key(a, x); mk_key(b, y);
   ASSERT(x.n == sizeof(T) && y.n == sizeof(T), "fixed width");
   key_order(x, y, cmp(a, b));
}
//@ C07
PROOF(key_u8) { scalar_key<uint8_t>(); }
//@ C07
PROOF(key_i8) { scalar_key<int8_t>(); }
//@ C07
PROOF(key_char) { scalar_key<char>(); }
//@ C07
PROOF(key_u16) { scalar_key<uint16_t>(); }
//@ C07
PROOF(key_i16) { scalar_key<int16_t>(); }
//@ C07
PROOF(key_u32) { scalar_key<uint32_t>(); }
//@ C07
PROOF(key_i32) { scalar_key<int32_t>(); }
//@ C07
PROOF(key_u64) { scalar_key<uint64_t>(); }
//@ C07
PROOF(key_i64) { scalar_key<int64_t>(); }
//@ C07
PROOF(key_u128) { scalar_key<unsigned __int128>(); }
//@ C07
PROOF(key_i128) { scalar_key<__int128>(); }
enum class lvl : int16_t { low = -5, high = 7 };
//@ C07
PROOF(key_enum) {
   lvl a = (lvl)ND(int16_t, "a"), b = (lvl)ND(int16_t, "b");
   kbuf x, y; mk_key(a, x); mk_key(b, y); key_order(x, y, cmp(a, b));
}
//@ C07
PROOF(key_bool) {
   bool a = vp::range("a", 0, 1), b = vp::range("b", 0, 1);
   kbuf x, y; mk_key(a, x); mk_key(b, y); key_order(x, y, (int)a - (int)b);
}
// IEEE order of numbers: by sign, then magnitude bits; both zeros are equal
template <typename T, typename I> static void float_key() {
   using U = std::make_unsigned_t<I>;
   U a = ND(U, "a"), b = ND(U, "b");
   U sign = U(1) << (8 * sizeof(U) - 1), mag = sign - 1, inf = sizeof(T) == 4 ? (U)0x7f800000u : (U)0x7ff0000000000000ull;
   ASSUME((a & mag) <= inf && (b & mag) <= inf); // not NaN
   I va = a & sign ? -(I)(a & mag) : (I)(a & mag), vb = b & sign ? -(I)(b & mag) : (I)(b & mag);
   T fa, fb; memcpy(&fa, &a, sizeof a); memcpy(&fb, &b, sizeof b);
   kbuf x, y; mk_key(fa, x); mk_key(fb, y);
   key_order(x, y, cmp(va, vb));
}
//@ C07
PROOF(key_float) { float_key<float, int32_t>(); }
//@ C07
PROOF(key_double) { float_key<double, int64_t>(); }
template <typename F> static void varkey(uint32_t v, kbuf& k, F) {
   fixed_buf_stream os(k.d, sizeof(k.d)); to_key_varuint32(v, os); k.n = os.pos - k.d;
   size_stream ss; to_key_varuint32(v, ss); ASSERT(ss.size == k.n && k.n <= 5, "size");
}
//@ C07
//@opts {"split":{"ha":[1,5],"hb":[1,5]}}
PROOF(key_varuint32) {
   auto draw = [](const char* nm, int h) { return (uint32_t)vp::range(nm, h == 1 ? 0 : 1ull << (7 * (h - 1)), h == 5 ? 0xffffffffull : (1ull << (7 * h)) - 1); };
   int ha = vp::range("ha", 1, 5), hb = vp::range("hb", 1, 5);
   uint32_t a = draw("a", ha), b = draw("b", hb);
   kbuf x, y; varkey(a, x, 0); varkey(b, y, 0);
   ASSERT(x.n == ha, "minimal length");
   key_order(x, y, cmp(a, b));
}
// ---- strings of any length: the bytes written, checked as they are written
struct mon {
   const char *p, *e; int st = 0; bool ok = true;
   // st 0: next character or the terminator; 1: after a zero character; 2: second terminator byte; 3: complete
   void write(char c) {
      if (st == 0) { if (p != e) { ok = ok && c == *p; st = c == 0 ? 1 : 0; ++p; } else { ok = ok && c == 0; st = 2; } }
      else if (st == 1) { ok = ok && c == 1; st = 0; }
      else if (st == 2) { ok = ok && c == 0; st = 3; }
      else ok = false;
   }
   void write(const void* s, size_t n) { for (size_t i = 0; i < n; ++i) write(((const char*)s)[i]); }
   template <int N> void write(const char (&s)[N]) { write(s, N); }
};
//@ C07
//@opts {"cut":true,"cut_after":3}
PROOF(key_string_format) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* s = vp::buf("s", n, "");
   mon m{s, s + n};
   to_key(std::string_view(s, n), m);
   COVER("done");
   ASSERT(m.ok && m.st == 3 && m.p == m.e, "each character, zero as 00 01, then 00 00");
}
//@ C07
PROOF(key_string_order_lemma) {
   // equal so far, then: a character or the end on either side, followed by any next key byte
   bool ea = vp::range("ea", 0, 1), eb = vp::range("eb", 0, 1);
   uint8_t x = ND(uint8_t, "x"), y = ND(uint8_t, "y"), nx = ND(uint8_t, "nx"), ny = ND(uint8_t, "ny");
   uint8_t a0 = ea ? 0 : x, a1 = ea ? 0 : x ? nx : 1, b0 = eb ? 0 : y, b1 = eb ? 0 : y ? ny : 1;
   int want = ea && eb ? 0 : ea ? -1 : eb ? 1 : x < y ? -1 : x > y ? 1 : 0;
   int got = a0 != b0 ? (a0 < b0 ? -1 : 1) : a0 == 0 && a1 != b1 ? (a1 < b1 ? -1 : 1) : 0;
   COVER("done");
   ASSERT(got == want, "the key decides at the first difference, as the string does");
}
// ---- compounds
namespace t {
struct rec { uint8_t a = 0; int16_t b = 0; };
EOSIO_REFLECT(rec, a, b);
static int rcmp(const rec& x, const rec& y) { int c = cmp(x.a, y.a); return c ? c : cmp(x.b, y.b); }
} // namespace t
static t::rec draw_rec(const char* nm) { t::rec r; r.a = ND(uint8_t, nm); r.b = ND(int16_t, nm); return r; }
//@ C07
PROOF(key_struct) {
   t::rec a = draw_rec("a"), b = draw_rec("b");
   kbuf x, y; mk_key(a, x); mk_key(b, y); key_order(x, y, t::rcmp(a, b));
   std::pair<uint16_t, int8_t> p{ND(uint16_t, "p"), ND(int8_t, "p")}, q{ND(uint16_t, "q"), ND(int8_t, "q")};
   mk_key(p, x); mk_key(q, y); key_order(x, y, cmp(p, q));
   std::tuple<int8_t, uint32_t, uint8_t> u{ND(int8_t, "u"), ND(uint32_t, "u"), ND(uint8_t, "u")}, v{ND(int8_t, "v"), ND(uint32_t, "v"), ND(uint8_t, "v")};
   mk_key(u, x); mk_key(v, y); key_order(x, y, cmp(u, v));
   std::array<uint16_t, 3> f, g;
   for (auto& e : f) e = ND(uint16_t, "f"); for (auto& e : g) e = ND(uint16_t, "g");
   mk_key(f, x); mk_key(g, y); key_order(x, y, cmp(f, g));
}
template <typename T> static void opt_key(bool pa, bool pb, T va, T vb) {
   std::optional<T> a, b;
   if (pa) a = va; if (pb) b = vb;
   kbuf x, y; mk_key(a, x); mk_key(b, y);
   key_order(x, y, pa && pb ? cmp(va, vb) : (int)pa - (int)pb);
}
//@ C07
//@opts {"split":{"pa":[0,1],"pb":[0,1]}}
PROOF(key_optional) {
   bool pa = vp::range("pa", 0, 1), pb = vp::range("pb", 0, 1);
   opt_key<uint32_t>(pa, pb, ND(uint32_t, "a"), ND(uint32_t, "b"));
   opt_key<uint8_t>(pa, pb, ND(uint8_t, "c"), ND(uint8_t, "d"));
   opt_key<int8_t>(pa, pb, ND(int8_t, "e"), ND(int8_t, "f"));
   opt_key<bool>(pa, pb, (bool)vp::range("g", 0, 1), (bool)vp::range("h", 0, 1));
   std::optional<t::rec> a, b; t::rec ra = draw_rec("ra"), rb = draw_rec("rb");
   if (pa) a = ra; if (pb) b = rb;
   kbuf x, y; mk_key(a, x); mk_key(b, y);
   key_order(x, y, pa && pb ? t::rcmp(ra, rb) : (int)pa - (int)pb);
}
//@ C07
//@opts {"split":{"ka":[0,2],"kb":[0,2]}}
PROOF(key_variant) {
   int ka = vp::range("ka", 0, 2), kb = vp::range("kb", 0, 2);
   using V = std::variant<uint8_t, t::rec, int64_t>;
   uint8_t a0 = ND(uint8_t, "a0"), b0 = ND(uint8_t, "b0"); t::rec a1 = draw_rec("a1"), b1 = draw_rec("b1"); int64_t a2 = ND(int64_t, "a2"), b2 = ND(int64_t, "b2");
   V a, b;
   if (ka == 0) a = a0; if (ka == 1) a = a1; if (ka == 2) a = a2;
   if (kb == 0) b = b0; if (kb == 1) b = b1; if (kb == 2) b = b2;
   kbuf x, y; mk_key(a, x); mk_key(b, y);
   key_order(x, y, ka != kb ? (ka < kb ? -1 : 1) : ka == 0 ? cmp(a0, b0) : ka == 1 ? t::rcmp(a1, b1) : cmp(a2, b2));
}
template <typename T> static void vec_key(size_t m, size_t n) {
   std::vector<T> a, b;
   for (size_t i = 0; i < m; ++i) a.push_back(ND(T, "a"));
   for (size_t i = 0; i < n; ++i) b.push_back(ND(T, "b"));
   int c = 0;
   for (size_t i = 0; i < m && i < n; ++i) if (!c) c = cmp(a[i], b[i]);
   if (!c) c = cmp(m, n);
   kbuf x, y; mk_key(a, x); mk_key(b, y); key_order(x, y, c);
   auto kv = convert_to_key(a);
   ASSERT(kv.size() == x.n, "convert_to_key size");
   for (size_t i = 0; i < x.n; ++i) ASSERT(kv[i] == x.d[i], "convert_to_key bytes");
}
//@ C07
//@bounded sequences of at most 2 elements
//@opts {"split":{"m":[0,2],"n":[0,2]}}
PROOF(key_vector) {
   size_t m = vp::range("m", 0, 2), n = vp::range("n", 0, 2);
   vec_key<uint8_t>(m, n); vec_key<int8_t>(m, n); vec_key<uint32_t>(m, n);
}
template <typename C> static void seq_key(size_t m, size_t n) {
   uint16_t a[2], b[2];
   C x, y;
   for (size_t i = 0; i < m; ++i) { a[i] = ND(uint16_t, "a"); if (i) ASSUME(a[1] > a[0]); x.insert(x.end(), a[i]); }
   for (size_t i = 0; i < n; ++i) { b[i] = ND(uint16_t, "b"); if (i) ASSUME(b[1] > b[0]); y.insert(y.end(), b[i]); }
   int c = 0;
   for (size_t i = 0; i < m && i < n; ++i) if (!c) c = cmp(a[i], b[i]);
   if (!c) c = cmp(m, n);
   kbuf k, l; mk_key(x, k); mk_key(y, l); key_order(k, l, c);
}
//@ C07
//@bounded sequences of at most 2 elements (increasing ones)
//@opts {"split":{"m":[0,2],"n":[0,2]}}
PROOF(key_containers) {
   size_t m = vp::range("m", 0, 2), n = vp::range("n", 0, 2);
   seq_key<std::list<uint16_t>>(m, n); seq_key<std::deque<uint16_t>>(m, n); seq_key<std::set<uint16_t>>(m, n);
   std::map<uint16_t, uint8_t> x, y;
   uint16_t a[2], b[2]; uint8_t u[2], v[2];
   for (size_t i = 0; i < m; ++i) { a[i] = ND(uint16_t, "ma"); u[i] = ND(uint8_t, "mu"); if (i) ASSUME(a[1] > a[0]); x.emplace_hint(x.end(), a[i], u[i]); }
   for (size_t i = 0; i < n; ++i) { b[i] = ND(uint16_t, "mb"); v[i] = ND(uint8_t, "mv"); if (i) ASSUME(b[1] > b[0]); y.emplace_hint(y.end(), b[i], v[i]); }
   int c = 0;
   for (size_t i = 0; i < m && i < n; ++i) { if (!c) c = cmp(a[i], b[i]); if (!c) c = cmp(u[i], v[i]); }
   if (!c) c = cmp(m, n);
   kbuf k, l; mk_key(x, k); mk_key(y, l); key_order(k, l, c);
}
//@ C07
//@bounded strings of at most 2 characters
//@opts {"split":{"m":[0,2],"n":[0,2]}}
PROOF(key_string_short) {
   size_t m = vp::range("m", 0, 2), n = vp::range("n", 0, 2);
   std::string a, b;
   for (size_t i = 0; i < m; ++i) a.push_back(ND(char, "a"));
   for (size_t i = 0; i < n; ++i) b.push_back(ND(char, "b"));
   int c = 0;
   for (size_t i = 0; i < m && i < n; ++i) if (!c) c = cmp((uint8_t)a[i], (uint8_t)b[i]);
   if (!c) c = cmp(m, n);
   kbuf x, y; mk_key(a, x); mk_key(b, y); key_order(x, y, c);
   mk_key(std::vector<std::string>{a}, x); mk_key(std::vector<std::string>{b}, y); key_order(x, y, c);
}
//@ C07
PROOF(key_name_symbol) {
   name a{ND(uint64_t, "a")}, b{ND(uint64_t, "b")};
   kbuf x, y; mk_key(a, x); mk_key(b, y); key_order(x, y, cmp(a.value, b.value));
   symbol s{ND(uint64_t, "s")}, u{ND(uint64_t, "u")};
   mk_key(s, x); mk_key(u, y); key_order(x, y, cmp(s.value, u.value));
}
