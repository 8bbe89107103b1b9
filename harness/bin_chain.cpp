// the chain types' binary and key forms: which bytes, in which order
//@flags
#include "bin_spec.hpp"
#include <eosio/name.hpp>
#include <eosio/asset.hpp>
#include <eosio/time.hpp>
#include <eosio/bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/varint.hpp>
#include <eosio/crypto.hpp>
#include <eosio/to_key.hpp>
using namespace eosio;
struct exp_bytes {
   char d[160]; size_t n = 0;
   template <typename T> exp_bytes& put(T v) { memcpy(d + n, &v, sizeof v); n += sizeof v; return *this; }
};
template <typename T, typename Eq> static void both(const T& v, const exp_bytes& e, Eq same) {
   char out[162];
   fixed_buf_stream os(out, e.n);
   to_bin(v, os);
   ASSERT(os.pos == out + e.n, "size of the encoding");
   for (size_t i = 0; i < e.n; ++i) ASSERT(out[i] == e.d[i], "encoding is the parts in order");
   size_stream ss; to_bin(v, ss);
   ASSERT(ss.size == e.n, "size stream");
   for (int k = 0; k < 3; ++k) {
      size_t n = k == 0 ? e.n : k == 1 ? e.n + 1 : e.n - 1;
      input_stream st(out, n);
      T back{};
      CATCHING(thrown, from_bin(back, st));
      ASSERT(thrown == (n < e.n), "truncated input is rejected, complete input accepted");
      ASSERT(st.end == out + n && st.pos >= out && st.pos <= st.end, "position");
      if (!thrown) { COVER("ok"); ASSERT(st.pos == out + e.n, "consumes its bytes"); ASSERT(same(back, v), "same value"); }
   }
}
// a type that is one integer on the wire
#define ONE(T, field, U) { U r = ND(U, #T); T v{}; v.field = r; exp_bytes e; e.put(r); both(v, e, [](auto& x, auto& y) { return x.field == y.field; }); }
//@ C04 C05 C06
PROOF(chain_scalars) {
   ONE(name, value, uint64_t)
   ONE(symbol_code, value, uint64_t)
   ONE(symbol, value, uint64_t)
   ONE(time_point, elapsed._count, int64_t)
   ONE(time_point_sec, utc_seconds, uint32_t)
   ONE(block_timestamp, slot, uint32_t)
   ONE(microseconds, _count, int64_t)
}
//@ C04 C05 C06
PROOF(chain_assets) {
   asset a; a.amount = ND(int64_t, "a"); a.symbol.value = ND(uint64_t, "s");
   { exp_bytes e; e.put(a.amount).put(a.symbol.value); both(a, e, [](auto& x, auto& y) { return x.amount == y.amount && x.symbol.value == y.symbol.value; }); }
   extended_asset x; x.quantity = a; x.contract.value = ND(uint64_t, "c");
   { exp_bytes e; e.put(a.amount).put(a.symbol.value).put(x.contract.value); both(x, e, [](auto& x, auto& y) { return x.quantity.amount == y.quantity.amount && x.quantity.symbol.value == y.quantity.symbol.value && x.contract.value == y.contract.value; }); }
   extended_symbol y; y.sym = a.symbol; y.contract = x.contract;
   { exp_bytes e; e.put(a.symbol.value).put(x.contract.value); both(y, e, [](auto& x, auto& y) { return x.sym.value == y.sym.value && x.contract.value == y.contract.value; }); }
}
template <size_t N> static std::array<char, N> draw(const char* n) { std::array<char, N> a; for (auto& c : a) c = ND(char, n); return a; }
template <size_t N> static void put(exp_bytes& e, const std::array<char, N>& a) { for (char c : a) e.put(c); }
//@ C04 C05 C06
//@opts {"split":{"k":[0,1]}}
PROOF(keys_fixed) {
   unsigned k = vp::range("k", 0, 1);
   auto p = draw<33>("p"); auto q = draw<32>("q"); auto s = draw<65>("s");
   public_key pk; if (k == 0) pk.emplace<0>(p); else pk.emplace<1>(p);
   { exp_bytes e; e.put<uint8_t>(k); put(e, p); both(pk, e, [](auto& x, auto& y) { return x == y; }); }
   private_key sk; if (k == 0) sk.emplace<0>(q); else sk.emplace<1>(q);
   { exp_bytes e; e.put<uint8_t>(k); put(e, q); both(sk, e, [](auto& x, auto& y) { return x == y; }); }
   signature sg; if (k == 0) sg.emplace<0>(s); else sg.emplace<1>(s);
   { exp_bytes e; e.put<uint8_t>(k); put(e, s); both(sg, e, [](auto& x, auto& y) { return x == y; }); }
}
//@ C04 C05 C06
//@bounded relying party and client data texts of at most 2 characters
//@opts {"split":{"l":[0,2]}}
PROOF(keys_webauthn) {
   size_t l = vp::range("l", 0, 2);
   webauthn_public_key w; w.key = draw<33>("p");
   uint8_t up = ND(uint8_t, "up"); w.user_presence = (webauthn_public_key::user_presence_t)up;
   exp_bytes e; e.put<uint8_t>(2); put(e, w.key); e.put(up).put<uint8_t>(l);
   for (size_t i = 0; i < l; ++i) { char c = ND(char, "c"); w.rpid.push_back(c); e.put(c); }
   public_key pk; pk.emplace<2>(w);
   both(pk, e, [](auto& x, auto& y) { return x == y; });
   webauthn_signature g; g.compact_signature = draw<65>("s");
   exp_bytes f; f.put<uint8_t>(2); put(f, g.compact_signature); f.put<uint8_t>(l);
   for (size_t i = 0; i < l; ++i) { uint8_t c = ND(uint8_t, "d"); g.auth_data.push_back(c); f.put(c); }
   f.put<uint8_t>(2 - l);
   for (size_t i = l; i < 2; ++i) { char c = ND(char, "j"); g.client_json.push_back(c); f.put(c); }
   signature sg; sg.emplace<2>(g);
   both(sg, f, [](auto& x, auto& y) { return x == y; });
}
//@ C04 C05 C06
PROOF(float_and_checksum) {
   auto a = draw<16>("f"); std::array<uint8_t, 16> u; for (int i = 0; i < 16; ++i) u[i] = a[i];
   float128 f(u); exp_bytes e; put(e, a); both(f, e, [](auto& x, auto& y) { return x == y; });
   uint32_t b = ND(uint32_t, "b"); float g; memcpy(&g, &b, 4); { exp_bytes e; e.put(b); both(g, e, [](auto& x, auto& y) { return !memcmp(&x, &y, 4); }); }
   uint64_t c = ND(uint64_t, "c"); double h; memcpy(&h, &c, 8); { exp_bytes e; e.put(c); both(h, e, [](auto& x, auto& y) { return !memcmp(&x, &y, 8); }); }
}
//@ C04 C05 C06
PROOF(bytes_any_length) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* p = vp::buf("s", n, "");
   Dec d = spec_varuint(p, n, 10);
   input_stream st{p, n};
   bytes v;
   CATCHING(thrown, from_bin(v, st));
   ASSERT(thrown == !(d.ok && d.val <= n - d.used), "a length and that many bytes");
   if (thrown) return;
   COVER("ok");
   ASSERT(st.pos == p + d.used + d.val, "position");
   size_t k = vp::range("k", 0, size_t(1) << 36);
   ASSUME(k < d.val);
   ASSERT(v.data.size() == d.val && v.data[k] == p[d.used + k], "the bytes");
   if (d.val >> 32) return;
   size_stream ss; to_bin(v, ss);
   ASSERT(ss.size == varlen(d.val) + d.val, "re-encoded size");
}
