//@flags @stub:ripemd160_init=stub_init @stub:ripemd160_update=stub_update @stub:ripemd160_digest=stub_final
#include "vp.hpp"
#include "../src/crypto.cpp"
using namespace eosio;
// The checksum of a key: RIPEMD-160 (proved under C15; here its contract) of the bytes, then the suffix.
static struct { int inits, updates, finals; bool ok; const char* a[2]; int n[2]; const void* st; } g;
extern "C" __attribute__((noinline)) void stub_init(abieos_ripemd160::ripemd160_state* s) { ++g.inits; g.st = s; g.ok = g.updates == 0; }
extern "C" __attribute__((noinline)) void stub_update(abieos_ripemd160::ripemd160_state* s, const char* p, int n) {
   g.ok = g.ok && s == g.st && g.finals == 0 && g.updates < 2;
   if (g.updates < 2) { g.a[g.updates] = p; g.n[g.updates] = n; }
   ++g.updates;
}
static bool fine;
extern "C" __attribute__((noinline)) int stub_final(const abieos_ripemd160::ripemd160_state* s, unsigned char* d) {
   ++g.finals; g.ok = g.ok && s == g.st;
   for (int i = 0; i < 20; ++i) d[i] = 'a' + i;
   return fine;
}
//@ C14
PROOF(checksum) {
   size_t n = vp::range("n", 0, 0x7fffffff), k = vp::range("k", 0, 2);
   char* p = vp::buf("p", n); char* x = vp::buf("x", k);
   g = {};
   fine = __vp_symbolic() ? ND(uint8_t, "fine") & 1 : true;
   std::array<unsigned char, 20> d;
   CATCHING(thrown, d = digest_suffix_ripemd160(std::string_view(p, n), std::string_view(x, k)));
   ASSERT(thrown == !fine, "an error exactly when the digest fails");
   if (thrown) { COVER("error"); return; }
   COVER("done");
   if (!__vp_symbolic()) {
      std::string m(p, n);
      m.append(x, k);
      std::array<unsigned char, 20> e;
      abieos_ripemd160::ripemd160_state st;
      abieos_ripemd160::ripemd160_init(&st);
      abieos_ripemd160::ripemd160_update(&st, m.data(), m.size());
      abieos_ripemd160::ripemd160_digest(&st, e.data());
      ASSERT(d == e, "the digest of the concatenation");
      return;
   }
   ASSERT(g.ok && g.inits == 1 && g.updates == 2 && g.finals == 1, "one digest of two parts");
   ASSERT(g.a[0] == p && g.n[0] == (int)n && g.a[1] == x && g.n[1] == (int)k, "the bytes, then the suffix");
   bool all = true;
   for (int i = 0; i < 20; ++i) all = all && d[i] == 'a' + i;
   ASSERT(all, "is returned");
}
