// Contract harness primitives.  The same harness source is (a) compiled to LLVM IR
// and turned into proof obligations by /verif/vcgen, where these functions are the
// verifier's nondet/assume/assert, and (b) compiled natively with sanitizers, where
// they read a replay file or a random generator, to run the real code on a concrete
// input.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>
#include <vector>

extern "C" {
uint64_t __vp_nd(const char* name, int bits);
uint64_t __vp_range(const char* name, uint64_t lo, uint64_t hi);
char*    __vp_buf(const char* name, uint64_t size, const char* hint);
void     __vp_assume(bool);
void     __vp_assert(bool, const char*);
void     __vp_cover(const char*);
uint64_t __vp_uf(const char* name, uint64_t arg);
bool     __vp_symbolic();
}

namespace vp {
template <typename T>
inline T nd(const char* name) {
   if constexpr (sizeof(T) == 16) {
      unsigned __int128 hi = __vp_nd(name, 64);
      return (T)(hi << 64 | __vp_nd(name, 64));
   } else
      return (T)__vp_nd(name, sizeof(T) * 8);
}
inline uint64_t range(const char* name, uint64_t lo, uint64_t hi) { return __vp_range(name, lo, hi); }
inline char*    buf(const char* name, uint64_t size, const char* hint = "") { return __vp_buf(name, size, hint); }
} // namespace vp

#define ND(T, name) vp::nd<T>(name)
#define ASSUME(c) __vp_assume(c)
#define ASSERT(c, msg) __vp_assert((c), msg)
#define COVER(name) __vp_cover(name)
#define PROOF(name) extern "C" __attribute__((noinline)) void proof_##name()

// run `expr`; `thrown` says whether it raised an exception
#define CATCHING(thrown, ...)                                                                                          \
   bool thrown = false;                                                                                                \
   try {                                                                                                               \
      __VA_ARGS__;                                                                                                     \
   } catch (...) { thrown = true; }

// recursive specification functions: the verifier treats them as uninterpreted and
// unfolds their defining equation; they may only read input buffers
#define GHOST extern "C" __attribute__((noinline, optnone))
// nominate index `idx` of the object being written, whose specified byte is `val`
extern "C" void __vp_watch(uint64_t idx, uint64_t val, int nbytes);
// nominate element `ptr` of an input buffer and a fact about it, to be kept for every range a scan has passed
extern "C" void __vp_watch_in(const void* ptr, bool fact);
#define WATCH_IN(ptr, fact) __vp_watch_in(ptr, fact)
#define WATCH(idx, val) __vp_watch(idx, (uint64_t)(val), sizeof(val))
