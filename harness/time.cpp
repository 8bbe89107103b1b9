#include "vp.hpp"
#include "text_spec.hpp"
#include "mock_json.hpp"
#include <eosio/time.hpp>
using namespace eosio;
// ---- the Gregorian calendar, counted from 1970-01-01
static inline bool leap(unsigned y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static inline unsigned mlen(unsigned y, unsigned m) { return m == 2 ? 28 + leap(y) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static inline unsigned before_month(unsigned y, unsigned m) {
   unsigned n = 0;
   for (unsigned i = 1; i < m; ++i) n += i == 2 ? 28 : i == 4 || i == 6 || i == 9 || i == 11 ? 30 : 31;
   return n + (m > 2 && leap(y));
}
static inline int64_t day_number(unsigned y, unsigned m, unsigned d) {
   unsigned n = 365 * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400 + before_month(y, m) + d - 1;
   return (int)(n - 719528);
}
// the day numbers of the years 0000 to 9999 are consecutive: every time in between has a date
//@ C11
//@opts {"lin":true,"split":{"m":[1,12],"c":[0,3],"r":[0,3]}}
PROOF(calendar_is_total) {
   unsigned y = 400 * vp::range("e", 0, 24) + 100 * vp::range("c", 0, 3) + 4 * vp::range("q", 0, 24) + vp::range("r", 0, 3), m = vp::range("m", 1, 12), d = vp::range("d", 1, 31);
   ASSUME(d <= mlen(y, m));
   COVER("done");
   if (d == 31 && m == 12) { ASSERT(day_number(y + 1, 1, 1) == day_number(y, m, d) + 1, "next year"); }
   else if (d == mlen(y, m)) { ASSERT(day_number(y, m + 1, 1) == day_number(y, m, d) + 1, "next month"); }
   else { ASSERT(day_number(y, m, d + 1) == day_number(y, m, d) + 1, "next day"); }
   ASSERT(day_number(1970, 1, 1) == 0 && day_number(2000, 3, 1) == 11017, "anchors");
}
// a date in the years 1970 to 9999, drawn by place in the 400-year cycle
struct date { unsigned y, m, d; bool none = true; };
static inline date draw_date() {
   date r;
   int k = vp::range("k", 0, 1), c = vp::range("c", 0, 3), yy = vp::range("r", 0, 3);
   r.m = vp::range("m", 1, 12);
   bool z = vp::range("z", 0, 1);   // a century's first year
   if (k && c != 3) return r;
   if (z && (k || yy)) return r;
   unsigned e = k ? 4 : vp::range("e", 5, 24), q = k ? vp::range("q1", yy >= 2 ? 17 : 18, 24) : (yy || !z ? vp::range("q", yy ? 0 : 1, 24) : 0);
   r.y = 400 * e + 100 * c + 4 * q + yy;
   r.d = vp::range("d", 1, 31);
   ASSUME(r.d <= mlen(r.y, r.m));
   r.none = false;
   return r;
}
static inline char dg(unsigned v) { return '0' + v; }
static inline bool is_text(const char* x, unsigned y, unsigned m, unsigned d, unsigned h, unsigned mi, unsigned s) {
   return x[0] == dg(y / 1000) && x[1] == dg(y / 100 % 10) && x[2] == dg(y / 10 % 10) && x[3] == dg(y % 10) && x[4] == '-' && x[5] == dg(m / 10) &&
          x[6] == dg(m % 10) && x[7] == '-' && x[8] == dg(d / 10) && x[9] == dg(d % 10) && x[10] == 'T' && x[11] == dg(h / 10) && x[12] == dg(h % 10) &&
          x[13] == ':' && x[14] == dg(mi / 10) && x[15] == dg(mi % 10) && x[16] == ':' && x[17] == dg(s / 10) && x[18] == dg(s % 10);
}
//@ C11
//@opts {"lin":true,"split":{"k":[0,1],"c":[0,3],"r":[0,3],"z":[0,1],"m":[1,12]}}
PROOF(text_of_time) {
   date a = draw_date();
   if (a.none) return;
   unsigned h = vp::range("h", 0, 23), mi = vp::range("mi", 0, 59), s = vp::range("s", 0, 59), ms = vp::range("ms", 0, 999), us = vp::range("us", 0, 999);
   int64_t t = day_number(a.y, a.m, a.d) * 86400000000ll + h * 3600000000ll + mi * 60000000ll + s * 1000000ll + ms * 1000ll + us;
   COVER("done");
   std::string x = microseconds_to_str((uint64_t)t);
   ASSERT(x.size() == 23, "length");
   ASSERT(is_text(x.data(), a.y, a.m, a.d, h, mi, s), "date and time of day");
   ASSERT(x[19] == '.' && x[20] == dg(ms / 100) && x[21] == dg(ms / 10 % 10) && x[22] == dg(ms % 10), "milliseconds");
}
// ---- reading
static inline bool digits(const char* s, int i, int n) { for (; n--; ++i) if (!is_dig(s[i])) return false; return true; }
static inline bool format(const char* s, size_t n) { // the first 19 characters
   return n >= 19 && digits(s, 0, 4) && s[4] == '-' && digits(s, 5, 2) && s[7] == '-' && digits(s, 8, 2) && s[10] == 'T' && digits(s, 11, 2) &&
          s[13] == ':' && digits(s, 14, 2) && s[16] == ':' && digits(s, 17, 2);
}
// the text of any valid date and time of day
struct text { char s[32]; int64_t sec; };
static inline unsigned num(const char* s, int n) { unsigned v = 0; for (int i = 0; i < n; ++i) v = v * 10 + (s[i] - '0'); return v; }
static inline void fill(text& t) {
   unsigned m = vp::range("m", 1, 12);
   for (int i = 0; i < 32; ++i) t.s[i] = dg(vp::range("ch", 0, 9));
   t.s[5] = dg(m / 10); t.s[6] = dg(m % 10);
   t.s[4] = t.s[7] = '-'; t.s[10] = 'T'; t.s[13] = t.s[16] = ':'; t.s[19] = '.';
   unsigned y = num(t.s, 4), d = num(t.s + 8, 2), h = num(t.s + 11, 2), mi = num(t.s + 14, 2), s = num(t.s + 17, 2);
   ASSUME(d >= 1 && d <= mlen(y, m) && h < 24 && mi < 60 && s < 60);
   t.sec = day_number(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
}
//@ C11
//@opts {"lin":true,"split":{"m":[1,12]}}
PROOF(time_point_sec_value) {
   text t;
   fill(t);
   mock_json st{{t.s, 19}};
   time_point_sec v;
   CATCHING(thrown, from_json(v, st));
   COVER("done");
   int64_t want = t.sec;
   ASSERT(thrown == (want < 0 || want > 0xffffffffll), "a date beyond 32-bit seconds is an error");
   if (!thrown) ASSERT(v.utc_seconds == (uint32_t)want, "the instant of the date");
}
//@ C11
//@opts {"lin":true,"split":{"m":[1,12],"f":[0,7]}}
PROOF(time_point_value) {
   text t;
   fill(t);
   int f = (int)vp::range("f", 0, 7) - 1;
   uint64_t us = 0; uint32_t scale = 100000;
   for (int i = 0; i < f; ++i, scale /= 10) us += (t.s[20 + i] - '0') * scale;
   mock_json st{{t.s, size_t(20 + f)}};
   time_point v;
   CATCHING(thrown, from_json(v, st));
   COVER("done");
   ASSERT(!thrown, "read");
   ASSERT(v.elapsed._count == t.sec * 1000000 + us, "the instant of the date");
}
//@ C11
//@opts {"lin":true,"cut":true,"cut_after":5}
PROOF(time_point_sec_format) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* s = vp::buf("s", n, "0123456789-T:.");
   bool ok = format(s, n) && (n == 19 || (s[19] == '.' && scan_dig(s + 20, s + n) == s + n));
   mock_json st{{s, n}};
   time_point_sec v;
   CATCHING(thrown, from_json(v, st));
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   ASSERT(ok, "YYYY-MM-DDThh:mm:ss, then a fraction of any length");
}
//@ C11
//@opts {"lin":true}
PROOF(time_point_format) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* s = vp::buf("s", n, "0123456789-T:.");
   bool ok = format(s, n) && n <= 26 && (n == 19 || s[19] == '.');
   for (size_t i = 20; i < 26; ++i) ok = ok && (i >= n || is_dig(s[i]));
   mock_json st{{s, n}};
   time_point v;
   CATCHING(thrown, from_json(v, st));
   ASSERT(thrown == !ok, "YYYY-MM-DDThh:mm:ss, then at most six decimals");
   if (!thrown) COVER("ok");
}
// ---- seconds and block slots
//@ C11
//@opts {"lin":true}
PROOF(seconds_of_time_point) {
   uint32_t s = ND(uint32_t, "s"), s2 = ND(uint32_t, "s2");
   uint64_t us = vp::range("us", 0, 999999);
   time_point t{microseconds(int64_t(s) * 1000000 + us)};
   time_point_sec c(t), b(s), a;
   a = t;
   COVER("done");
   ASSERT(t.sec_since_epoch() == s && c.utc_seconds == s && a.utc_seconds == s, "whole seconds");
   ASSERT(time_point(b).elapsed._count == int64_t(s) * 1000000, "back exactly");
   time_point_sec o(s2);
   ASSERT((b == o) == (s == s2) && (b != o) == (s != s2) && (b < o) == (s < s2) && (b <= o) == (s <= s2) && (b > o) == (s > s2) && (b >= o) == (s >= s2), "order of the instants");
   ASSERT((o - b)._count == (int64_t(s2) - int64_t(s)) * 1000000, "difference");
}
//@ C11
//@opts {"lin":true}
PROOF(slot_of_time) {
   uint32_t s = ND(uint32_t, "s"), s2 = ND(uint32_t, "s2");
   uint64_t us = vp::range("us", 0, 499999);
   const int64_t epoch = 946684800; // 2000-01-01
   block_timestamp b(s), o(s2);
   COVER("done");
   ASSERT(time_point(b).elapsed._count == epoch * 1000000 + int64_t(s) * 500000, "slots are half seconds from 2000");
   ASSERT(b.to_time_point() == time_point(b), "same");
   ASSERT(block_timestamp(time_point{microseconds(epoch * 1000000 + int64_t(s) * 500000 + us)}).slot == s, "the slot an instant falls into");
   if (s % 2 == 0 && s / 2 + epoch <= 0xffffffffll) {
      ASSERT(block_timestamp(time_point_sec(s / 2 + epoch)).slot == s, "the slot of a second");
   }
   ASSERT((b == o) == (s == s2) && (b != o) == (s != s2) && (b < o) == (s < s2) && (b <= o) == (s <= s2) && (b > o) == (s > s2) && (b >= o) == (s >= s2), "order of the slots");
   CATCHING(thrown, o = b.next());
   ASSERT(thrown == (s == 0xffffffff), "the last slot has no next one");
   if (!thrown) ASSERT(o.slot == s + 1, "next slot");
}
