//@flags @stub:base58_to_binary=stub_decode @stub:binary_to_base58=stub_encode @stub:digest_suffix_ripemd160=stub_digest
#include "vp.hpp"
#include "../src/crypto.cpp"
using namespace eosio;
// Calls of the base-58 codec and of the checksum go to their contracts here: the decoder appends some bytes (or
// fails), the encoder gives some text, the checksum is some 20 bytes; each notes what it was called on.
static struct {
   char bytes[160]; size_t n; bool bad;              // what the text decodes to
   std::string_view text; int decoded;
   uint8_t sum[20]; char data[160], suffix[4]; size_t datan, suffixn; int summed;
   char enc[160]; size_t encn; int encoded;
} g;
extern "C" __attribute__((noinline)) void stub_decode(std::vector<char>& r, std::string_view s) {
   ++g.decoded; g.text = s;
   check(!g.bad, "not base 58");
   r.insert(r.end(), g.bytes, g.bytes + g.n);
}
extern "C" __attribute__((noinline)) std::string stub_encode(const std::string_view& b) {
   ++g.encoded; g.encn = b.size();
   memcpy(g.enc, b.data(), b.size());
   return "5";
}
extern "C" __attribute__((noinline)) std::array<unsigned char, 20> stub_digest(const std::string_view& a, const std::string_view& b) {
   ++g.summed; g.datan = a.size(); g.suffixn = b.size();
   memcpy(g.data, a.data(), a.size());
   memcpy(g.suffix, b.data(), b.size());
   std::array<unsigned char, 20> r;
   memcpy(r.data(), g.sum, 20);
   return r;
}
static void start() {
   g = {};
   char* s = vp::buf("sum", 20);
   memcpy(g.sum, s, 20);
}
static void real_sum(const char* p, size_t n, const char* suffix, uint8_t* d) {
   abieos_ripemd160::ripemd160_state st;
   abieos_ripemd160::ripemd160_init(&st);
   abieos_ripemd160::ripemd160_update(&st, p, n);
   abieos_ripemd160::ripemd160_update(&st, suffix, strlen(suffix));
   abieos_ripemd160::ripemd160_digest(&st, d);
}
// the text of a key is its prefix and the base 58 text of its bytes followed by four bytes of the checksum of the
// bytes and the suffix
static void text_is(const std::string& t, const char* prefix, const char* suffix, const char* key, size_t n) {
   if (!__vp_symbolic()) {
      uint8_t d[20];
      real_sum(key, n, suffix, d);
      std::string b(key, n);
      b.append((char*)d, 4);
      ASSERT(t == prefix + to_base58(b.data(), b.size()), "prefix, then bytes and checksum in base 58");
      return;
   }
   size_t k = strlen(prefix), x = strlen(suffix);
   ASSERT(t.size() == k + 1 && memcmp(t.data(), prefix, k) == 0 && t[k] == '5', "prefix, then the base 58 text");
   ASSERT(g.encoded == 1 && g.encn == n + 4 && memcmp(g.enc, key, n) == 0 && memcmp(g.enc + n, g.sum, 4) == 0, "of the bytes and the checksum's first four");
   ASSERT(g.summed == 1 && g.datan == n && memcmp(g.data, key, n) == 0 && g.suffixn == x && memcmp(g.suffix, suffix, x) == 0, "which is of the bytes and the suffix");
}
static const char* const suffixes[] = {"K1", "R1", "WA"};
//@ C14
//@opts {"split":{"t":[0,1]}}
PROOF(public_key_text) {
   size_t t = vp::range("t", 0, 1);
   char* key = vp::buf("key", 33);
   start();
   public_key k;
   if (t) { std::array<char, 33> a; memcpy(a.data(), key, 33); k.emplace<1>(a); } else { std::array<char, 33> a; memcpy(a.data(), key, 33); k.emplace<0>(a); }
   std::string s = public_key_to_string(k);
   COVER("done");
   text_is(s, t ? "PUB_R1_" : "PUB_K1_", suffixes[t], key, 33);
}
//@ C14
//@opts {"split":{"t":[0,1]}}
PROOF(private_key_text) {
   size_t t = vp::range("t", 0, 1);
   char* key = vp::buf("key", 32);
   start();
   private_key k;
   std::array<char, 32> a; memcpy(a.data(), key, 32);
   if (t) k.emplace<1>(a); else k.emplace<0>(a);
   std::string s = private_key_to_string(k);
   COVER("done");
   text_is(s, t ? "PVT_R1_" : "PVT_K1_", suffixes[t], key, 32);
}
//@ C14
//@opts {"split":{"t":[0,1]}}
PROOF(signature_text) {
   size_t t = vp::range("t", 0, 1);
   char* key = vp::buf("key", 65);
   start();
   signature k;
   std::array<char, 65> a; memcpy(a.data(), key, 65);
   if (t) k.emplace<1>(a); else k.emplace<0>(a);
   std::string s = signature_to_string(k);
   COVER("done");
   text_is(s, t ? "SIG_R1_" : "SIG_K1_", suffixes[t], key, 65);
}
// ---- reading: the text after the prefix is decoded; the result is the key exactly when the last four bytes are the
// checksum of the others and the suffix
static void doc(char* b, size_t n, const char* suffix, std::string& s) {
   start();
   g.n = n;
   memcpy(g.bytes, b, n);
   g.bad = ND(uint8_t, "bad") & 1;
   if (!__vp_symbolic()) {
      if (ND(uint8_t, "good") & 1 && n >= 4) { real_sum(g.bytes, n - 4, suffix, g.sum); memcpy(g.bytes + n - 4, g.sum, 4); }
      else if (n >= 4) real_sum(g.bytes, n - 4, suffix, g.sum);
      s += g.bad ? "0" : to_base58(g.bytes, n);
   } else s += "23";
}
static bool sum_ok() { return !g.bad && g.n > 4 && memcmp(g.bytes + g.n - 4, g.sum, 4) == 0; }
static void read_as(const std::string& s, size_t k, const char* suffix) {
   if (!__vp_symbolic()) return;
   ASSERT(g.decoded == 1 && g.text.size() == 2 && g.text[0] == '2' && g.text[1] == '3', "the text after the prefix is decoded");
   if (g.bad || g.n <= 4) return;
   size_t x = strlen(suffix);
   ASSERT(g.summed == 1 && g.datan == g.n - 4 && memcmp(g.data, g.bytes, g.n - 4) == 0 && g.suffixn == x && memcmp(g.suffix, suffix, x) == 0, "the checksum is of the bytes and the suffix");
}
//@ C14
//@bounded at most 40 bytes of base 58
//@opts {"split":{"t":[0,2],"n":[0,40]}}
PROOF(public_key_parse) {
   size_t t = vp::range("t", 0, 2), n = vp::range("n", 0, 40); // 2: the old form
   const char* suffix = t == 2 ? "" : suffixes[t];
   std::string s = t == 2 ? "EOS" : t ? "PUB_R1_" : "PUB_K1_";
   size_t k = s.size();
   doc(vp::buf("b", n), n, suffix, s);
   public_key r;
   CATCHING(thrown, r = public_key_from_string(s));
   read_as(s, k, suffix);
   ASSERT(thrown == !(sum_ok() && n >= 37), "an error exactly when it is no base 58, too short, or the checksum is wrong");
   if (thrown) { COVER("rejected"); return; }
   if (n >= 37) COVER("key");
   if (t == 1) ASSERT(r.index() == 1 && memcmp(std::get<1>(r).data(), g.bytes, 33) == 0, "the key");
   else ASSERT(r.index() == 0 && memcmp(std::get<0>(r).data(), g.bytes, 33) == 0, "the key");
}
//@ C14
//@bounded at most 40 bytes of base 58
//@opts {"split":{"t":[0,1],"n":[0,40]}}
PROOF(private_key_parse) {
   size_t t = vp::range("t", 0, 1), n = vp::range("n", 0, 40);
   std::string s = t ? "PVT_R1_" : "PVT_K1_";
   size_t k = s.size();
   doc(vp::buf("b", n), n, suffixes[t], s);
   private_key r;
   CATCHING(thrown, r = private_key_from_string(s));
   read_as(s, k, suffixes[t]);
   ASSERT(thrown == !(sum_ok() && n >= 36), "an error exactly when it is no base 58, too short, or the checksum is wrong");
   if (thrown) { COVER("rejected"); return; }
   COVER("key");
   if (t == 1) ASSERT(r.index() == 1 && memcmp(std::get<1>(r).data(), g.bytes, 32) == 0, "the key");
   else ASSERT(r.index() == 0 && memcmp(std::get<0>(r).data(), g.bytes, 32) == 0, "the key");
}
//@ C14
//@bounded at most 72 bytes of base 58
//@opts {"split":{"t":[0,1],"n":[0,72]}}
PROOF(signature_parse) {
   size_t t = vp::range("t", 0, 1), n = vp::range("n", 0, 72);
   std::string s = t ? "SIG_R1_" : "SIG_K1_";
   size_t k = s.size();
   doc(vp::buf("b", n), n, suffixes[t], s);
   signature r;
   CATCHING(thrown, r = signature_from_string(s));
   read_as(s, k, suffixes[t]);
   ASSERT(thrown == !(sum_ok() && n >= 69), "an error exactly when it is no base 58, too short, or the checksum is wrong");
   if (thrown) { COVER("rejected"); return; }
   COVER("key");
   if (t == 1) ASSERT(r.index() == 1 && memcmp(std::get<1>(r).data(), g.bytes, 65) == 0, "the signature");
   else ASSERT(r.index() == 0 && memcmp(std::get<0>(r).data(), g.bytes, 65) == 0, "the signature");
}
//@ C14
//@bounded relying party ids of at most 3 characters
//@opts {"split":{"n":[0,3]}}
PROOF(webauthn_public_key_text) {
   size_t n = vp::range("n", 0, 3);
   char* key = vp::buf("key", 33); char* id = vp::buf("id", n);
   start();
   webauthn_public_key w;
   memcpy(w.key.data(), key, 33);
   uint8_t pres = vp::range("pres", 0, 2);
   w.user_presence = (webauthn_public_key::user_presence_t)pres;
   w.rpid = std::string(id, n);
   char bytes[40];
   memcpy(bytes, key, 33); bytes[33] = pres; bytes[34] = n; memcpy(bytes + 35, id, n);
   std::string s = public_key_to_string(public_key(std::in_place_index<2>, w));
   COVER("done");
   text_is(s, "PUB_WA_", "WA", bytes, 35 + n);
   // and back
   if (!__vp_symbolic()) {
      webauthn_public_key b = std::get<2>(public_key_from_string(s));
      ASSERT(b.key == w.key && b.user_presence == w.user_presence && b.rpid == w.rpid, "the text gives the key back");
      return;
   }
   memcpy(g.bytes, bytes, 35 + n); memcpy(g.bytes + 35 + n, g.sum, 4);
   g.n = 39 + n; g.summed = g.decoded = 0;
   public_key r;
   CATCHING(thrown, r = public_key_from_string("PUB_WA_23"));
   ASSERT(!thrown, "accepted");
   read_as("", 7, "WA");
   webauthn_public_key& b = std::get<2>(r);
   ASSERT(r.index() == 2 && memcmp(b.key.data(), key, 33) == 0 && (uint8_t)b.user_presence == pres && b.rpid.size() == n && memcmp(b.rpid.data(), id, n) == 0, "the text gives the key back");
}
//@ C14
//@bounded two bytes of data and a text of two characters
PROOF(webauthn_signature_text) {
   char* key = vp::buf("key", 65); char* x = vp::buf("x", 4);
   start();
   webauthn_signature w;
   memcpy(w.compact_signature.data(), key, 65);
   w.auth_data.assign(x, x + 2);
   w.client_json = std::string(x + 2, 2);
   char bytes[80];
   memcpy(bytes, key, 65); bytes[65] = 2; memcpy(bytes + 66, x, 2); bytes[68] = 2; memcpy(bytes + 69, x + 2, 2);
   std::string s = signature_to_string(signature(std::in_place_index<2>, w));
   COVER("done");
   text_is(s, "SIG_WA_", "WA", bytes, 71);
   if (!__vp_symbolic()) { ASSERT(std::get<2>(signature_from_string(s)) == w, "the text gives the signature back"); return; }
   memcpy(g.bytes, bytes, 71); memcpy(g.bytes + 71, g.sum, 4);
   g.n = 75; g.summed = g.decoded = 0;
   signature r;
   CATCHING(thrown, r = signature_from_string("SIG_WA_23"));
   ASSERT(!thrown, "accepted");
   read_as("", 7, "WA");
   webauthn_signature& b = std::get<2>(r);
   ASSERT(r.index() == 2 && memcmp(b.compact_signature.data(), key, 65) == 0 && b.auth_data.size() == 2 && memcmp(b.auth_data.data(), x, 2) == 0 && b.client_json.size() == 2 && memcmp(b.client_json.data(), x + 2, 2) == 0, "the text gives the signature back");
}
// the old text of a private key: base 58 of a version byte, the key, and four more bytes
//@ C14
//@bounded at most 42 bytes of base 58
//@opts {"split":{"n":[0,42]}}
PROOF(old_private_key) {
   size_t n = vp::range("n", 0, 42);
   std::string s;
   doc(vp::buf("b", n), n, "", s);
   if (!__vp_symbolic() && s.substr(0, 4) == "PVT_") return;
   private_key r;
   CATCHING(thrown, r = private_key_from_string(s));
   ASSERT(thrown == (g.bad || n < 37), "an error exactly when it is no base 58 or too short");
   if (thrown) { COVER("rejected"); return; }
   COVER("key");
   ASSERT(r.index() == 0 && memcmp(std::get<0>(r).data(), g.bytes + 1, 32) == 0, "the key");
}
// any other text
//@ C14
//@bounded texts of at most 10 characters
//@opts {"split":{"n":[0,10],"which":[0,2]}}
PROOF(unknown_prefix) {
   size_t n = vp::range("n", 0, 10), which = vp::range("which", 0, 2);
   char* p = vp::buf("p", n, "PSUBIVTG_K1RWAEO");
   start();
   std::string_view s(p, n);
   const char* w = which == 0 ? "PUB" : which == 1 ? "PVT" : "SIG";
   bool curve = n >= 7 && memcmp(p, w, 3) == 0 && p[3] == '_' && p[6] == '_' && ((p[4] == 'K' && p[5] == '1') || (p[4] == 'R' && p[5] == '1') || (p[4] == 'W' && p[5] == 'A' && which != 1));
   bool old = which == 0 ? n >= 3 && memcmp(p, "EOS", 3) == 0 : which == 1 && !(n >= 4 && memcmp(p, "PVT_", 4) == 0);
   ASSUME(!curve && !old);
   CATCHING(thrown, if (which == 0) public_key_from_string(s); else if (which == 1) private_key_from_string(s); else signature_from_string(s));
   COVER("done");
   ASSERT(thrown && g.decoded == 0, "an unknown prefix is an error");
}
