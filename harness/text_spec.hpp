// recursive specification functions for the textual formats
#pragma once
#include "vp.hpp"
static constexpr uint64_t BAD = ~uint64_t(0);
static inline bool is_dig(char c) { return c >= '0' && c <= '9'; }
// end of the run of spaces / digits starting at p
GHOST const char* ghost_sp(const char* p, const char* e) { return p != e && *p == ' ' ? ghost_sp(p + 1, e) : p; }
GHOST const char* ghost_dig(const char* p, const char* e) { return p != e && is_dig(*p) ? ghost_dig(p + 1, e) : p; }
// the digits at p appended to the magnitude acc: the value, and whether it stays within lim
// (the digit step is justified by PROOF(digit_step_lemma))
static inline bool fits(uint64_t acc, uint64_t d, uint64_t lim) { return acc <= (lim - d) / 10; }
GHOST uint64_t ghost_val(const char* p, const char* e, uint64_t acc) {
   return p != e && is_dig(*p) ? ghost_val(p + 1, e, acc * 10 + (*p - '0')) : acc;
}
GHOST bool ghost_fits(const char* p, const char* e, uint64_t acc, uint64_t lim) {
   if (p == e || !is_dig(*p)) return true;
   return fits(acc, *p - '0', lim) && ghost_fits(p + 1, e, acc * 10 + (*p - '0'), lim);
}
// LEMMA (proved by induction in PROOF(lemma_scan)): the scans end inside [p,e]
static inline bool lem_sp(const char* p, const char* e) { const char* r = ghost_sp(p, e); return p <= r && r <= e; }
static inline bool lem_dig(const char* p, const char* e) { const char* r = ghost_dig(p, e); return p <= r && r <= e; }
static inline const char* scan_sp(const char* p, const char* e) { const char* r = ghost_sp(p, e); ASSUME(p > e || lem_sp(p, e)); return r; }
static inline const char* scan_dig(const char* p, const char* e) { const char* r = ghost_dig(p, e); ASSUME(p > e || lem_dig(p, e)); return r; }
// the letters of a symbol code at p: number (8 stands for more than 7) and packed value
struct letters { size_t m = 0; uint64_t code = 0; };
static inline letters spec_letters(const char* p, const char* e) {
   letters r;
   bool on = true;
   for (int i = 0; i < 8; ++i) {
      on = on && size_t(e - p) > size_t(i) && p[i] >= 'A' && p[i] <= 'Z';
      if (on) { ++r.m; if (i < 7) r.code |= (uint64_t)(uint8_t)p[i] << (8 * i); }
   }
   return r;
}
