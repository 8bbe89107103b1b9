#include "bin_spec.hpp"
#include <eosio/reflection.hpp>
using namespace eosio;
enum class color : uint16_t { red = 1, top = 0xffff };
template <typename T> static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
// ---- scalars: their bytes, lowest first
template <typename T> static void scalar() {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   input_stream st{p, n};
   T v{};
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == (n < sizeof(T)), "needs exactly its size");
   ASSERT(st.end == p + n && st.pos == p + (thrown ? 0 : sizeof(T)), "position");
   if (thrown) { COVER("short"); return; }
   COVER("ok");
   ASSERT(memcmp(&v, p, sizeof(T)) == 0, "bytes are the value, low byte first");
   char o[sizeof(T) + 1];
   size_t cap = vp::range("cap", 0, sizeof(T) + 1);
   fixed_buf_stream os(o, cap);
   CATCHING(t2, to_bin(v, os));
   ASSERT(t2 == (cap < sizeof(T)), "overrun exactly when the buffer is too small");
   ASSERT(os.pos == o + (t2 ? 0 : sizeof(T)) && os.end == o + cap, "advance");
   if (!t2) ASSERT(memcmp(o, p, sizeof(T)) == 0, "encoding gives the bytes back");
   size_stream ss; to_bin(v, ss);
   ASSERT(ss.size == sizeof(T), "size");
}
//@ C04 C05 C06
PROOF(scalar_small) { scalar<uint8_t>(); }
//@ C04 C05 C06
PROOF(scalar_i8) { scalar<int8_t>(); }
//@ C04 C05 C06
PROOF(scalar_i16) { scalar<int16_t>(); }
//@ C04 C05 C06
PROOF(scalar_u32) { scalar<uint32_t>(); }
//@ C04 C05 C06
PROOF(scalar_i64) { scalar<int64_t>(); }
//@ C04 C05 C06
PROOF(scalar_u64) { scalar<uint64_t>(); }
//@ C04 C05 C06
PROOF(scalar_u128) { scalar<unsigned __int128>(); }
//@ C04 C05 C06
PROOF(scalar_float) { scalar<float>(); }
//@ C04 C05 C06
PROOF(scalar_double) { scalar<double>(); }
//@ C04 C05 C06
PROOF(scalar_enum) { scalar<color>(); }
// ---- text and byte sequences of any length
//@ C04 C05
PROOF(string_decode) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 5);
   uint32_t len = (uint32_t)d.val;
   input_stream st{p, n};
   std::string v = "old";
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == !(d.ok && len <= n - d.used), "accepted exactly when the length and that many bytes are there");
   ASSERT(st.pos >= p && st.pos <= p + n && st.end == p + n, "position stays inside");
   if (thrown) { COVER("bad"); return; }
   COVER("ok");
   ASSERT(v.size() == len && st.pos == p + d.used + len, "length");
   size_t i = vp::range("i", 0, 0xffffffff); ASSUME(i < len);
   ASSERT(v[i] == p[d.used + i], "contents");
}
//@ C04 C05
PROOF(string_view_decode) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 5);
   uint32_t len = (uint32_t)d.val;
   input_stream st{p, n};
   std::string_view v;
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == !(d.ok && len <= n - d.used), "accepted exactly when the length and that many bytes are there");
   ASSERT(st.pos >= p && st.pos <= p + n && st.end == p + n, "position stays inside");
   if (thrown) { COVER("bad"); return; }
   COVER("ok");
   ASSERT(v.data() == p + d.used && v.size() == len && st.pos == p + d.used + len, "a view of the bytes in place");
}
//@ C04 C05
PROOF(input_stream_decode) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 10);
   input_stream st{p, n}, v;
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == !(d.ok && d.val <= n - d.used), "accepted exactly when the length and that many bytes are there");
   ASSERT(st.pos >= p && st.pos <= p + n && st.end == p + n, "position stays inside");
   if (thrown) { COVER("bad"); return; }
   COVER("ok");
   ASSERT(v.pos == p + d.used && v.end == v.pos + d.val && st.pos == v.end, "a view of the bytes in place");
}
template <typename T> static void vec_decode() {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 10);
   input_stream st{p, n};
   std::vector<T> v;
   CATCHING(thrown, from_bin(v, st));
   bool fit = d.ok && d.val <= (n - d.used) / sizeof(T);
   ASSERT(thrown == !fit, "accepted exactly when the length and that many elements are there");
   ASSERT(st.pos >= p && st.pos <= p + n && st.end == p + n, "position stays inside");
   if (thrown) { COVER("bad"); return; }
   COVER("ok");
   ASSERT(v.size() == d.val && st.pos == p + d.used + d.val * sizeof(T), "length");
   if (!d.val) return;
   size_t i = vp::range("i", 0, size_t(1) << 36); ASSUME(i < d.val * sizeof(T));
   ASSERT(((const char*)v.data())[i] == p[d.used + i], "contents");
   // and back: same bytes after a header of minimal length
   size_t h = varlen(d.val), sz = h + d.val * sizeof(T);
   size_stream ss;
   CATCHING(big, to_bin(v, ss));
   ASSERT(big == (d.val >> 32 != 0), "encodes lengths up to 32 bits");
   if (big) return;
   ASSERT(ss.size == sz, "size");
   char* o = vp::buf("o", sz, "");
   fixed_buf_stream os{o, sz};
   CATCHING(over, to_bin(v, os));
   ASSERT(!over && os.pos == o + sz, "exactly the size");
   Dec e = spec_varuint(o, sz, 5);
   ASSERT(e.ok && e.used == h && e.val == d.val, "minimal length header");
   ASSERT(o[h + i] == p[d.used + i], "contents");
}
//@ C04 C05 C06
PROOF(vector_char_decode) { vec_decode<char>(); }
//@ C04 C05 C06
//@opts {"cut":true,"cut_after":12}
PROOF(vector_u16_decode) { vec_decode<uint16_t>(); }
//@ C04 C05 C06
//@opts {"cut":true,"cut_after":12}
PROOF(vector_u64_decode) { vec_decode<uint64_t>(); }
// ---- encoding of sequences: header, contents, agreement of the streams
static void text_encode(int h) {
   size_t n = draw_len("n", h);
   char* p = vp::buf("s", n, "");
   size_t cap = n + h + vp::range("slack", 0, 2) - 1;
   char* o = vp::buf("o", cap, "");
   size_t i = vp::range("i", 0, 0xffffffff);
   fixed_buf_stream os{o, cap};
   std::string_view sv{p, n};
   CATCHING(t1, to_bin(sv, os));
   ASSERT(t1 == (cap < n + h), "overrun exactly when the buffer is too small");
   ASSERT(os.pos >= o && os.pos <= o + cap, "never past the buffer");
   size_stream ss; to_bin(sv, ss);
   ASSERT(ss.size == n + h, "size");
   if (t1) return;
   COVER("ok");
   ASSERT(os.pos == o + n + h, "exactly the size");
   Dec d = spec_varuint(o, n + h, 5);
   ASSERT(d.ok && d.used == h && d.val == n, "minimal length header");
   ASSUME(i < n);
   ASSERT(o[h + i] == p[i], "contents");
}
//@ C05 C06
//@opts {"split":{"h":[1,5]}}
PROOF(string_encode) { text_encode(vp::range("h", 1, 5)); }
//@ C05 C06
PROOF(string_too_long) {
   size_t n = vp::range("n", size_t(1) << 32, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   size_stream ss;
   CATCHING(t, to_bin(std::string_view(p, n), ss));
   COVER("done");
   ASSERT(t, "lengths above 32 bits are rejected");
}
