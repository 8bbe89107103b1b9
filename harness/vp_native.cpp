// Native back end of the harness primitives: replay of recorded inputs, random
// search, and a libFuzzer entry point.
#include "vp.hpp"
#include <chrono>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <string>
#include <unistd.h>
#include <dlfcn.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace {
enum Mode { REPLAY, RANDOM, FUZZ } mode;
jmp_buf                            skip_env;
std::map<std::string, int>         cnt;
std::map<std::string, std::string> rec_v; // recorded name -> hex
std::map<std::string, std::string> rep;   // replay values
std::mt19937_64                    rng;
const uint8_t*                     fz;
size_t                             fzn;
std::vector<char*>                 bufs;
const char*                        out_path = nullptr;
const char*                        failed   = nullptr;
bool                               in_case  = false;
std::string                        pname;

std::string key(const char* n) {
   int k = cnt[n]++;
   return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
void dump(const char* why) {
   if (!out_path)
      return;
   FILE* f = fopen(out_path, "w");
   if (!f)
      return;
   fprintf(f, "# failing input for proof_%s\n# %s\n", pname.c_str(), why);
   for (auto& [k, v] : rec_v) fprintf(f, "%s %s\n", k.c_str(), v.c_str());
   fclose(f);
}
void on_death() {
   if (in_case)
      dump("sanitizer report or crash");
}
uint8_t fzb() {
   if (!fzn)
      return 0;
   --fzn;
   return *fz++;
}
uint64_t fzv(int bytes) {
   uint64_t r = 0;
   for (int i = 0; i < bytes; ++i) r |= uint64_t(fzb()) << (8 * i);
   return r;
}
uint64_t pick(int bits) {
   uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
   switch (rng() % 8) {
      case 0: return rng() % 4 & m;
      case 1: return rng() % 300 & m;
      case 2: return (m - rng() % 4) & m;
      case 3: return ((1ull << (rng() % bits)) + (rng() % 3) - 1) & m;
      case 4: {
         uint64_t p = 1;
         for (int i = rng() % 20; i > 0; --i) p *= 10;
         return (p + rng() % 3 - 1) & m;
      }
      case 5: return (rng() >> (rng() % 64)) & m;
      case 6: return (m >> 1) + rng() % 3 & m;
      default: return rng() & m;
   }
}
void record(const std::string& k, const void* p, size_t n) {
   std::string s;
   char        b[3];
   for (size_t i = 0; i < n; ++i) {
      snprintf(b, 3, "%02x", ((const uint8_t*)p)[i]);
      s += b;
   }
   rec_v[k] = s.empty() ? "-" : s;
}
bool replayed(const std::string& k, std::string& out) {
   auto it = rep.find(k);
   if (it == rep.end())
      return false;
   out = it->second;
   return true;
}
int hexd(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
} // namespace

extern "C" {
bool __vp_symbolic() { return false; }
uint64_t __vp_uf(const char* name, uint64_t a) {
   uint64_t h = 1469598103934665603ull;
   for (; *name; ++name) h = (h ^ (unsigned char)*name) * 1099511628211ull;
   return (h ^ a) * 0x9E3779B97F4A7C15ull;
}
uint64_t __vp_nd(const char* name, int bits) {
   std::string k = key(name), s;
   uint64_t    v = 0;
   if (mode == REPLAY) {
      if (replayed(k, s))
         for (size_t i = 0; i + 1 < s.size() && i < 16; i += 2) v |= uint64_t(hexd(s[i]) * 16 + hexd(s[i + 1])) << (4 * i);
   } else if (mode == RANDOM)
      v = pick(bits);
   else
      v = fzv((bits + 7) / 8);
   if (bits < 64)
      v &= (1ull << bits) - 1;
   record(k, &v, 8);
   return v;
}
uint64_t __vp_range(const char* name, uint64_t lo, uint64_t hi) {
   std::string k = key(name), s;
   uint64_t    v = lo;
   if (mode == REPLAY) {
      v = 0;
      if (replayed(k, s))
         for (size_t i = 0; i + 1 < s.size() && i < 16; i += 2) v |= uint64_t(hexd(s[i]) * 16 + hexd(s[i + 1])) << (4 * i);
      if (v < lo || v > hi)
         longjmp(skip_env, 1);
   } else {
      uint64_t span = hi - lo + 1;
      uint64_t cap  = 64; // sizes: keep concrete runs small
      if (mode == RANDOM) {
         switch (rng() % 4) {
            case 0: v = lo + (span ? rng() % span : rng()); break;
            case 1: v = hi - (rng() % 3 < span ? rng() % 3 : 0); break;
            default: v = lo + rng() % (span && span < cap ? span : cap); break;
         }
      } else
         v = span && span <= 256 ? lo + fzb() % span : lo + (span ? fzv(8) % span : fzv(8));
      if (v < lo || v > hi)
         v = lo;
   }
   record(k, &v, 8);
   return v;
}
char* __vp_buf(const char* name, uint64_t size, const char* hint) {
   std::string k = key(name), s;
   if (size > (1u << 20))
      longjmp(skip_env, 1);
   char* p = (char*)malloc(size ? size : 1);
   bufs.push_back(p);
   if (!size) { // exact-size allocation so that any access is caught
      free(p);
      bufs.pop_back();
      p = (char*)malloc(0);
      bufs.push_back(p);
   }
   size_t hl = strlen(hint);
   if (mode == REPLAY) {
      memset(p, 0, size);
      if (replayed(k, s) && s != "-")
         for (size_t i = 0; i + 1 < s.size() && i / 2 < size; i += 2) p[i / 2] = hexd(s[i]) * 16 + hexd(s[i + 1]);
   } else if (mode == RANDOM) {
      int m = rng() % 5;
      for (size_t i = 0; i < size; ++i) {
         int c;
         if (hl && m < 4 && rng() % (m == 3 ? 8 : 32))
            c = hint[rng() % hl];
         else if (m == 4 && rng() % 2)
            c = (int)(rng() % 4) * 85;
         else
            c = rng() % 3 ? rng() % 256 : 32 + rng() % 96;
         p[i] = (char)c;
      }
      if (hl && size && rng() % 4 == 0) { // long runs of one character
         size_t a = rng() % size, n = rng() % (size - a + 1);
         memset(p + a, hint[rng() % hl], n);
      }
   } else {
      for (size_t i = 0; i < size; ++i) p[i] = (char)fzb();
   }
   record(k, p, size);
   return p;
}
void __vp_assume(bool c) {
   if (!c)
      longjmp(skip_env, 1);
}
void __vp_assert(bool c, const char* msg) {
   if (!c) {
      failed = msg;
      dump(msg);
      fprintf(stderr, "ASSERTION FAILED: %s\n", msg);
      for (auto& [k, v] : rec_v)
         fprintf(stderr, "  %s = %s\n", k.c_str(), v.size() > 400 ? (v.substr(0, 400) + "...").c_str() : v.c_str());
      fflush(stderr);
      _exit(77);
   }
}
void __vp_cover(const char*) {}
}

static void (*target)();

static bool one() {
   cnt.clear();
   rec_v.clear();
   bool ok = true;
   in_case = true;
   if (setjmp(skip_env) == 0)
      target();
   else
      ok = false;
   in_case = false;
   for (char* p : bufs) free(p);
   bufs.clear();
   return ok;
}

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) {
   const char* n = getenv("VP_PROOF");
   pname         = n ? n : "";
   out_path      = getenv("VP_OUT");
   target        = (void (*)())dlsym(RTLD_DEFAULT, ("proof_" + pname).c_str());
   if (!target) {
      fprintf(stderr, "no such proof\n");
      _exit(3);
   }
   if (__sanitizer_set_death_callback)
      __sanitizer_set_death_callback(on_death);
   mode = FUZZ;
   return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
   fz  = d;
   fzn = n;
   one();
   return 0;
}
#else
int main(int argc, char** argv) {
   if (argc < 4) {
      fprintf(stderr, "usage: %s PROOF replay FILE | PROOF search SECONDS SEED OUT\n", argv[0]);
      return 2;
   }
   pname  = argv[1];
   target = (void (*)())dlsym(RTLD_DEFAULT, ("proof_" + pname).c_str());
   if (!target) {
      fprintf(stderr, "no such proof %s\n", argv[1]);
      return 3;
   }
   if (__sanitizer_set_death_callback)
      __sanitizer_set_death_callback(on_death);
   if (!strcmp(argv[2], "replay")) {
      mode = REPLAY;
      static char line[1 << 22], a[1 << 10], v[1 << 22];
      FILE*       f = fopen(argv[3], "r");
      if (!f)
         return 3;
      while (fgets(line, sizeof line, f)) {
         if (line[0] == '#')
            continue;
         if (sscanf(line, "%1000s %4000000s", a, v) == 2)
            rep[a] = v;
      }
      fclose(f);
      bool ok = one();
      printf(ok ? "replay: property held on this input\n" : "replay: input does not satisfy the precondition\n");
      return ok ? 0 : 5;
   }
   double secs = atof(argv[3]);
   rng.seed(strtoull(argv[4], nullptr, 10));
   out_path = argv[5];
   mode     = RANDOM;
   auto          t0 = std::chrono::steady_clock::now();
   unsigned long n = 0, used = 0;
   while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
      for (int i = 0; i < 50; ++i) {
         ++n;
         if (one())
            ++used;
      }
   }
   printf("search: %lu cases, %lu satisfying the precondition, no failure\n", n, used);
   return 0;
}
#endif

extern "C" void __vp_watch(uint64_t, uint64_t, int) {}
extern "C" void __vp_watch_in(const void*, bool) {}
