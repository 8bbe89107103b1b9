#include "vp.hpp"
#include <eosio/to_json.hpp>
#include <eosio/stream.hpp>
using namespace eosio;
// well-formed UTF-8 sequence at p (RFC 3629): its length, or 0
static inline unsigned u8(const char* p, size_t i) { return (unsigned char)p[i]; }
static inline bool cont(unsigned c) { return c >= 0x80 && c <= 0xbf; }
static inline int utf8_len(const char* p, const char* e) {
   size_t n = e - p;
   unsigned a = u8(p, 0);
   if (a < 0x80) return 1;
   if (a >= 0xc2 && a <= 0xdf) return n >= 2 && cont(u8(p, 1)) ? 2 : 0;
   if (a >= 0xe0 && a <= 0xef) {
      if (n < 3) return 0;
      unsigned b = u8(p, 1);
      return (a == 0xe0 ? b >= 0xa0 && b <= 0xbf : a == 0xed ? b >= 0x80 && b <= 0x9f : cont(b)) && cont(u8(p, 2)) ? 3 : 0;
   }
   if (a >= 0xf0 && a <= 0xf4) {
      if (n < 4) return 0;
      unsigned b = u8(p, 1);
      return (a == 0xf0 ? b >= 0x90 && b <= 0xbf : a == 0xf4 ? b >= 0x80 && b <= 0x8f : cont(b)) && cont(u8(p, 2)) && cont(u8(p, 3)) ? 4 : 0;
   }
   return 0;
}
static inline char hd(unsigned d) { return d < 10 ? '0' + d : 'A' + (d - 10); }
static inline bool plain(char c) { return c != '"' && c != '\\' && (unsigned char)c >= 32 && c != 127; }
// Is the byte at p part of a well-formed sequence? (a lead byte is never inside another sequence)
static inline bool wf(const char* s, const char* p, const char* e) {
   return utf8_len(p, e) > 0 || (p - s >= 1 && utf8_len(p - 1, e) > 1) || (p - s >= 2 && utf8_len(p - 2, e) > 2) || (p - s >= 3 && utf8_len(p - 3, e) > 3);
}
// Follows the text as it is written. p: next input byte. The argument is by the first wrong piece written, which stands for
// some input byte k (or the end): that one is shown to be right, all others are assumed to be.
struct mon {
   const char* s; const char* p; const char* e; const char* k; int st = 0, left = 0; // left: bytes of the current sequence to come
   void see(bool ok) { if (p == k) ASSERT(ok, "the text written stands for the string"); ASSUME(ok); }
   void write(char c) {
      if (st == 0) { if (k == s) ASSERT(c == '"', "opening quote"); st = 1; }
      else if (p == e) { see(st == 1 && c == '"'); st = 9; }
      else if (st == 1) {
         int l = left ? left : utf8_len(p, e);
         if (!l) { see(c == '?'); ++p; }
         else if (plain(*p)) { see(c == *p); ++p; left = l - 1; }
         else { see(c == '\\'); st = 2; }
      } else if (st == 2) {
         if (*p == '"' || *p == '\\') { see(c == *p); ++p; st = 1; }
         else { see(c == 'u'); st = 3; }
      } else if (st == 3) { see(c == '0'); st = 4; }
      else if (st == 4) { see(c == '0'); st = 5; }
      else if (st == 5) { see(c == hd((unsigned char)*p >> 4)); st = 6; }
      else { see(c == hd((unsigned char)*p & 15)); ++p; st = 1; }
   }
   void write(const void* d, size_t n) {
      if (d == p && st == 1) { // a run of the input itself
         ASSERT(n <= size_t(e - p), "within the string");
         if (left || n != (size_t)utf8_len(p, e)) { // not just one sequence
            if (k >= p && k - p < n) ASSERT(wf(s, k, e), "copied bytes are well-formed");
            ASSERT(p + n == e || !cont((unsigned char)p[n]), "whole sequences");
            left = 0;
         }
         if (k >= p && k - p < n) ASSERT(plain(*k), "copied bytes need no escape");
         p += n;
         return;
      }
      const char* c = (const char*)d;
      if (n > 0) write(c[0]);
      if (n > 1) write(c[1]);
      if (n > 2) write(c[2]);
      if (n > 3) write(c[3]);
      if (n > 4) write(c[4]);
      if (n > 5) write(c[5]);
      ASSERT(n <= 6, "pieces other than runs of the input are escapes");
   }
   template <int N> void write(const char (&s)[N]) { write(s, N); }
};
//@ C17
//@opts {"cut":true,"cut_after":0}
PROOF(string_text) {
   size_t n = vp::range("n", 0, size_t(1) << 36), k = vp::range("k", 0, n);
   char* s = vp::buf("s", n, "\"\\\n\x7f\xc2\x80\xe0\xa0\xed\xf0\x90\xf4");
   mon m{s, s, s + n, s + k};
   if (k < n) WATCH_IN(s + k, plain(s[k]));
   to_json(std::string_view(s, n), m);
   COVER("done");
   ASSERT(m.st == 9 && m.p == m.e, "every byte and the closing quote written");
}
