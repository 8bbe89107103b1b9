#include "vp.hpp"
#include "mock_json.hpp"
#include <eosio/bytes.hpp>
#include <eosio/fixed_bytes.hpp>
using namespace eosio;
static inline int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static inline char hd(unsigned d) { return d < 10 ? '0' + d : 'A' + (d - 10); }
// pairs of hex digits from p to e
GHOST bool ghost_hex(const char* p, const char* e) { return p == e || (hv(p[0]) >= 0 && hv(p[1]) >= 0 && ghost_hex(p + 2, e)); }
// an output iterator that checks each byte as it is stored
struct mon_it {
   const char** p; bool* ok; size_t* n;
   mon_it& operator*() { return *this; }
   mon_it& operator++() { return *this; }
   mon_it operator++(int) { return *this; }
   mon_it& operator=(char c) { *ok = *ok && (uint8_t)c == (hv((*p)[0]) << 4 | hv((*p)[1])); *p += 2; ++*n; return *this; }
};
//@ C12
//@opts {"cut":true}
PROOF(unhex_any_length) {
   size_t m = vp::range("m", 0, size_t(1) << 35), n = 2 * m;
   char* s = vp::buf("s", n, "0123456789abcdefABCDEF");
   bool want = ghost_hex(s, s + n);
   const char* p = s; bool ok = true; size_t k = 0;
   bool r = unhex(mon_it{&p, &ok, &k}, (const char*)s, (const char*)s + n);
   ASSERT(r == want, "accepted exactly when every character is a hex digit");
   if (r) { COVER("ok"); ASSERT(ok && p == s + n, "each byte is its two digits, high first"); } else COVER("rejected");
}
// the JSON forms: quotes and hex text around it
struct mon_out { // checks what is written as it is written
   const char* p; const char* e; int st = 0; bool ok = true;
   void write(char c) {
      if (st == 0) { ok = ok && c == '"'; st = 1; }
      else if (st == 1) { if (p != e) { ok = ok && c == hd((uint8_t)*p >> 4); st = 2; } else { ok = ok && c == '"'; st = 3; } }
      else if (st == 2) { ok = ok && c == hd((uint8_t)*p & 15); ++p; st = 1; }
      else ok = false;
   }
   void write(const void* s, size_t n) { for (size_t i = 0; i < n; ++i) write(((const char*)s)[i]); }
   template <int N> void write(const char (&s)[N]) { write(s, N); }
};
//@ C12
//@opts {"cut":true,"cut_after":3}
PROOF(to_json_hex_any_length) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* s = vp::buf("s", n, "");
   mon_out m{s, s + n};
   to_json_hex(s, n, m);
   COVER("done");
   ASSERT(m.ok && m.st == 3 && m.p == m.e, "a quote, two upper-case digits for each byte high first, a quote");
}
//@ C12
PROOF(digit_lemma) {
   uint8_t b = ND(uint8_t, "b");
   COVER("done");
   ASSERT(hv(hd(b >> 4)) == b >> 4 && hv(hd(b & 15)) == (b & 15), "written digits read back");
}
//@ C12
//@bounded texts of at most 9 characters
//@opts {"split":{"n":[0,9]}}
PROOF(bytes_read) {
   size_t n = vp::range("n", 0, 9);
   char* s = vp::buf("s", n, "0123456789abcdefABCDEF");
   bool want = n % 2 == 0;
   for (size_t i = 0; i < n; ++i) want = want && hv(s[i]) >= 0;
   mock_json st; st.str = {s, n};
   bytes b; b.data.push_back('x');
   CATCHING(thrown, from_json(b, st));
   ASSERT(thrown == !want, "accepted exactly when an even number of hex digits");
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   ASSERT(b.data.size() == n / 2, "half as many bytes");
   for (size_t i = 0; i < n / 2; ++i) ASSERT((uint8_t)b.data[i] == (hv(s[2 * i]) << 4 | hv(s[2 * i + 1])), "bytes in order, old contents gone");
}
//@ C12
//@bounded byte strings of at most 4 bytes
//@opts {"split":{"n":[0,4]}}
PROOF(bytes_round_trip) {
   size_t n = vp::range("n", 0, 4);
   bytes b;
   for (size_t i = 0; i < n; ++i) b.data.push_back(ND(char, "c"));
   std::string t = convert_to_json(b);
   ASSERT(t.size() == 2 * n + 2 && t[0] == '"' && t[2 * n + 1] == '"', "length and quotes");
   mock_json st; st.str = std::string_view(t).substr(1, 2 * n);
   bytes c;
   CATCHING(thrown, from_json(c, st));
   COVER("done");
   ASSERT(!thrown && c == b, "reads back");
}
template <size_t N, typename W> static void digest_write() {
   std::array<uint8_t, N> a;
   for (auto& x : a) x = ND(uint8_t, "a");
   fixed_bytes<N, W> f(a);
   char t[2 * N + 2];
   fixed_buf_stream os(t, sizeof t);
   to_json(f, os);
   COVER("done");
   ASSERT(os.pos == t + sizeof t && t[0] == '"' && t[2 * N + 1] == '"', "length and quotes");
   for (size_t i = 0; i < N; ++i) ASSERT(t[2 * i + 1] == hd(a[i] >> 4) && t[2 * i + 2] == hd(a[i] & 15), "digits of the bytes in order");
}
template <size_t N, typename W> static void digest_read(size_t n) {
   char* s = vp::buf("s", n, "0123456789abcdefABCDEF");
   bool want = n == 2 * N;
   for (size_t i = 0; i < n; ++i) want = want && hv(s[i]) >= 0;
   mock_json st; st.str = {s, n};
   fixed_bytes<N, W> g;
   CATCHING(thrown, from_json(g, st));
   ASSERT(thrown == !want, "accepted exactly when that many hex digits");
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   auto b = g.extract_as_byte_array();
   for (size_t i = 0; i < N; ++i) ASSERT(b[i] == (hv(s[2 * i]) << 4 | hv(s[2 * i + 1])), "bytes in order");
}
//@ C12 C18
PROOF(digest_write_20) { digest_write<20, uint32_t>(); }
//@ C12 C18
PROOF(digest_write_32) { digest_write<32, uint64_t>(); }
//@ C12 C18
PROOF(digest_write_64) { digest_write<64, uint64_t>(); }
//@ C12
//@opts {"split":{"k":[0,4]}}
PROOF(digest_read_5) { digest_read<5, uint32_t>(vp::range("k", 0, 4) + 8); }
//@ C12 C18
//@opts {"split":{"k":[0,4]}}
PROOF(digest_read_20) { digest_read<20, uint32_t>(vp::range("k", 0, 4) + 2*20-2); }
//@ C12 C18 thorough
//@opts {"split":{"k":[0,4]}}
PROOF(digest_read_32) { digest_read<32, uint64_t>(vp::range("k", 0, 4) + 62); }
//@ C12 C18 thorough
//@opts {"split":{"k":[0,4]},"unroll":150}
PROOF(digest_read_64) { digest_read<64, uint64_t>(vp::range("k", 0, 4) + 126); }
