#include "vp.hpp"
#include <eosio/to_json.hpp>
#include <eosio/reflection.hpp>
#include <eosio/stream.hpp>
using namespace eosio;
// The containers are templates over their element's to_json: the elements here write one arbitrary character, so the
// contracts below are about the containers alone.
namespace t {
struct leaf { char c = 0; };
struct other { char c = 0; };
inline const char* get_type_name(leaf*) { return "leaf"; }
inline const char* get_type_name(other*) { return "other"; }
template <typename S> void to_json(const leaf& l, S& s) { s.write(l.c); }
template <typename S> void to_json(const other& l, S& s) { s.write('<'); s.write(l.c); }
struct empty {};
EOSIO_REFLECT(empty);
struct base { leaf z; };
EOSIO_REFLECT(base, z);
struct rec : base {
   leaf a; std::optional<leaf> opt; std::vector<leaf> list; std::variant<leaf, other> var; empty none;
};
EOSIO_REFLECT(rec, base base, a, opt, list, var, none);
} // namespace t
struct txt { // the expected text
   char b[512]; size_t n = 0; bool pretty = false; int ind = 0;
   void c(char x) { b[n++] = x; }
   void s(const char* x) { while (*x) c(*x++); }
   void nl() { if (pretty) { c('\n'); for (int i = 0; i < 4 * ind; ++i) c(' '); } }
   void open(char x) { c(x); ++ind; nl(); }
   void close(char x) { --ind; nl(); c(x); }
   void next() { c(','); nl(); }
   void key(const char* k) { c('"'); s(k); s("\":"); if (pretty) c(' '); }
};
struct mem { // a stream over a plain buffer
   char b[512]; size_t n = 0;
   void write(char c) { b[n++] = c; }
   void write(const void* s, size_t k) { for (size_t i = 0; i < k; ++i) b[n++] = ((const char*)s)[i]; }
};
static void expect_list(txt& x, const std::vector<t::leaf>& v) {
   if (v.empty()) { x.s("[]"); return; }
   x.open('[');
   for (size_t i = 0; i < v.size(); ++i) { if (i) x.next(); x.c(v[i].c); }
   x.close(']');
}
static void expect_var(txt& x, const std::variant<t::leaf, t::other>& v) {
   x.open('[');
   x.s(v.index() ? "\"other\"" : "\"leaf\""); x.next();
   if (v.index()) { x.c('<'); x.c(std::get<1>(v).c); } else x.c(std::get<0>(v).c);
   x.close(']');
}
static void expect(txt& x, const t::rec& r) {
   x.open('{');
   x.key("z"); x.c(r.z.c); x.next();
   x.key("a"); x.c(r.a.c); x.next();
   x.key("opt"); if (r.opt) x.c(r.opt->c); else x.s("null"); x.next();
   x.key("list"); expect_list(x, r.list); x.next();
   x.key("var"); expect_var(x, r.var); x.next();
   x.key("none"); x.s("{}");
   x.close('}');
}
__attribute__((noinline, optnone)) static void draw(t::rec& r, int o, int n, int v) {
   r.z.c = ND(char, "z"); r.a.c = ND(char, "a");
   if (o) r.opt = t::leaf{ND(char, "o")};
   for (int i = 0; i < n; ++i) r.list.push_back(t::leaf{ND(char, "l")});
   if (v) r.var = t::other{ND(char, "v")}; else r.var = t::leaf{ND(char, "v")};
}
static bool same(const txt& x, const char* b, size_t n) {
   bool ok = n == x.n;
   for (size_t i = 0; i < x.n; ++i) ok = ok && b[i] == x.b[i];
   return ok;
}
//@ C17
//@bounded lists of at most 3 elements inside the object
//@opts {"split":{"o":[0,1],"n":[0,3],"v":[0,1]},"unroll":600}
PROOF(object_text) {
   int o = vp::range("o", 0, 1), n = vp::range("n", 0, 3), v = vp::range("v", 0, 1);
   t::rec r; draw(r, o, n, v);
   txt x; expect(x, r);
   mem m; to_json(r, m);
   COVER("done");
   ASSERT(same(x, m.b, m.n), "fields in order, separators between, nothing else");
   txt y; y.pretty = true; expect(y, r);
   pretty_stream<mem> p; to_json(r, p);
   ASSERT(same(y, p.b, p.n), "the pretty form adds newlines and indentation only");
   ASSERT(p.current_indent.empty(), "indentation undone");
}
//@ C17
//@bounded lists of at most 3 elements inside the object
//@opts {"split":{"o":[0,1],"n":[0,3],"v":[0,1]},"unroll":600}
PROOF(object_two_pass) {
   int o = vp::range("o", 0, 1), n = vp::range("n", 0, 3), v = vp::range("v", 0, 1);
   t::rec r; draw(r, o, n, v);
   txt x; expect(x, r);
   std::string s = convert_to_json(r);
   COVER("done");
   ASSERT(same(x, s.data(), s.size()), "convert_to_json returns the text");
   txt y; y.pretty = true; expect(y, r);
   std::string p = format_json(r);
   ASSERT(same(y, p.data(), p.size()), "format_json returns the text");
}
// lists of any length, on a stream that follows the text
struct lmon {
   const t::leaf* p; const t::leaf* b; const t::leaf* e; int st = 0; bool ok = true;
   void write(char c) {
      if (st == 0) { ok = ok && c == '['; st = 1; }
      else if (st == 1) { if (p == e) { ok = ok && c == ']'; st = 3; } else { ok = ok && c == p->c; ++p; st = 2; } }
      else if (st == 2) { if (p == e) { ok = ok && c == ']'; st = 3; } else { ok = ok && c == ','; st = 1; } }
      else ok = false;
   }
   void write(const void* s, size_t k) { for (size_t i = 0; i < k; ++i) write(((const char*)s)[i]); }
};
//@ C17
//@opts {"cut":true,"cut_after":2,"peel":1}
PROOF(list_any_length) {
   size_t n = vp::range("n", 0, size_t(1) << 36);
   char* s = vp::buf("s", n, "");
   t::leaf* b = (t::leaf*)s;
   struct { t::leaf *b, *e, *c; } raw{b, b + n, b + n};
   static_assert(sizeof raw == sizeof(std::vector<t::leaf>));
   const std::vector<t::leaf>& v = *(const std::vector<t::leaf>*)&raw;
   lmon m{b, b, b + n};
   to_json(v, m);
   COVER("done");
   ASSERT(m.ok && m.st == 3 && m.p == m.e, "brackets around the elements in order, commas between");
}
// scalars
//@ C17
PROOF(bool_text) {
   bool b = ND(uint8_t, "b") & 1;
   mem m; to_json(b, m);
   COVER("done");
   const char* x = b ? "true" : "false";
   bool ok = m.n == (b ? 4 : 5);
   for (size_t i = 0; i < (b ? 4 : 5); ++i) ok = ok && m.b[i] == x[i];
   ASSERT(ok, "true or false");
}
