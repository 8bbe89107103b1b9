//@flags -I@V/harness/shim_tok
#include "vp.hpp"
#include <eosio/from_json.hpp>
#include <eosio/reflection.hpp>
using namespace eosio;
// a script of tokens, standing for any document
enum { NUL, BOOL, STR, OBJ, KEY, EOBJ, ARR, EARR, BAD };
struct tok { int type; const char* s; size_t n; bool b; };
static tok    script[64];
static size_t script_n, script_pos;
static bool   gen;               // tokens generated on the fly instead
static uint64_t gen_depth;
static bool   gen_started;
static bool   gen_over;
bool tok_complete() { return script_pos == script_n; }
template <typename H> bool deliver(H& h, const tok& t) {
   switch (t.type) {
      case NUL: return h.Null();
      case BOOL: return h.Bool(t.b);
      case STR: return h.String(t.s, t.n, false);
      case OBJ: return h.StartObject();
      case KEY: return h.Key(t.s, t.n, false);
      case EOBJ: return h.EndObject(0);
      case ARR: return h.StartArray();
      case EARR: return h.EndArray(0);
      default: return false;
   }
}
static int gen_type() { // any token a well-formed document can have here
   int ty = ND(uint8_t, "t") & 7;
   gen_over = gen_over || (gen_started && !gen_depth); // asked for a token past the end of the value
   gen_started = true;
   if (ty == OBJ || ty == ARR) ++gen_depth;
   if (ty == EOBJ || ty == EARR) { ASSUME(gen_depth > 0); --gen_depth; }
   if (ty == KEY) ASSUME(gen_depth > 0);
   return ty;
}
template <typename H> bool tok_next(H& h) {
   if (gen) return deliver(h, tok{gen_type(), nullptr, 0, false});
   if (script_pos == script_n) return false;
   return deliver(h, script[script_pos++]);
}
static void add(int type, const char* s = nullptr, size_t n = 0, bool b = false) { script[script_n++] = {type, s, n, b}; }
static void add_str(const char* s) { add(STR, s, strlen(s)); }
static void add_key(const char* s) { add(KEY, s, strlen(s)); }
namespace t {
struct leaf { int c = -1; int kept = 0; }; // kept: a part the text does not set
struct other { int c = -1; };
inline const char* get_type_name(leaf*) { return "leaf"; }
inline const char* get_type_name(other*) { return "other"; }
template <typename S> void from_json(leaf& l, S& s) { auto v = s.get_string(); eosio::check(v.size() == 1, "leaf"); l.c = (unsigned char)v[0]; }
template <typename S> void from_json(other& l, S& s) { l.c = s.get_bool(); }
struct base { leaf z; };
EOSIO_REFLECT(base, z);
struct rec : base { leaf a; std::optional<leaf> opt; std::vector<leaf> list; };
EOSIO_REFLECT(rec, base base, a, opt, list);
} // namespace t
static char dummy[1];
// ---- tokens: every getter takes exactly its own kind of token
//@ C26
//@opts {"split":{"t":[0,8],"g":[0,11]}}
PROOF(token_getters) {
   int t = vp::range("t", 0, 8), g = vp::range("g", 0, 11);
   char* s = vp::buf("s", 3, "");
   bool b = ND(uint8_t, "b") & 1;
   script_n = script_pos = 0; gen = false;
   add(t, s, 3, b);
   add(STR, s, 2);
   json_token_stream st(dummy);
   static const int want[12] = {NUL, BOOL, STR, OBJ, KEY, EOBJ, ARR, EARR, NUL, KEY, EOBJ, ARR};
   bool hit = t == want[g], soft = g >= 8, got = true, val = true;
   if (ND(uint8_t, "peek") & 1) { CATCHING(bad, st.peek_token()); ASSERT(bad == (t == BAD), "a parse error is an error"); if (bad) return; }
   CATCHING(thrown, switch (g) {
      case 0: st.get_null(); break;
      case 1: val = st.get_bool() == b; break;
      case 2: { auto v = st.get_string(); val = v.data() == s && v.size() == 3; break; }
      case 3: st.get_start_object(); break;
      case 4: { auto v = st.get_key(); val = v.data() == s && v.size() == 3; break; }
      case 5: st.get_end_object(); break;
      case 6: st.get_start_array(); break;
      case 7: st.get_end_array(); break;
      case 8: got = st.get_null_pred(); break;
      case 9: { auto v = st.maybe_get_key(); got = !!v; val = !v || (v->data() == s && v->size() == 3); break; }
      case 10: got = st.get_end_object_pred(); break;
      case 11: got = st.get_start_array_pred(); break;
   });
   COVER("done");
   ASSERT(thrown == (t == BAD || (!hit && !soft)), "an error for any other token");
   if (thrown) return;
   ASSERT(got == hit && val, "the token's value");
   if (t == STR && !hit) { auto v = st.get_string(); ASSERT(v.size() == 3, "a token of another kind stays"); return; }
   if (hit) { auto v = st.get_string(); ASSERT(v.data() == s && v.size() == 2, "the token is consumed once"); }
}
//@ C26
//@opts {"split":{"k":[0,2]}}
PROOF(end_of_document) {
   int k = vp::range("k", 0, 2);
   script_n = script_pos = 0; gen = false;
   add_str("x");
   if (k == 2) add_str("y");
   json_token_stream st(dummy);
   st.peek_token();
   if (k) st.get_string();
   CATCHING(thrown, st.get_end());
   COVER("done");
   ASSERT(thrown == (k != 1), "the end is accepted exactly when everything was consumed");
}
// ---- skipping consumes exactly one value, however long and deep
//@ C26
//@opts {"cut":true,"cut_after":2,"peel":1}
PROOF(skip_any_value) {
   gen = true; gen_depth = 0; gen_started = false; gen_over = false;
   json_token_stream st(dummy);
   from_json_skip_value(st);
   COVER("done");
   ASSERT(gen_depth == 0 && gen_started && !gen_over && st.current_token.type == json_token_type::type_unread, "exactly one value consumed");
}
// ---- containers
//@ C26
//@bounded lists of at most 3 elements, 2 previous elements
//@opts {"split":{"n":[0,3],"old":[0,2],"e":[0,3]}}
PROOF(list_read) {
   int n = vp::range("n", 0, 3), old = vp::range("old", 0, 2), e = vp::range("e", 0, 3);
   char* s = vp::buf("s", 3, "");
   script_n = script_pos = 0; gen = false;
   if (e == 1) add_str("x"); else add(ARR);
   for (int i = 0; i < n; ++i) add(STR, s + i, 1);
   if (e == 2) add(NUL); else if (e == 3) add(BAD); else add(EARR);
   std::vector<t::leaf> v(old, t::leaf{9, 1});
   json_token_stream st(dummy);
   CATCHING(thrown, from_json(v, st));
   ASSERT(thrown == (e != 0), "[ elements ] and nothing else");
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   ASSERT(v.size() == (size_t)n, "the elements of the text and no old ones");
   for (int i = 0; i < n; ++i) ASSERT(v[i].c == (unsigned char)s[i] && !v[i].kept, "in order");
   ASSERT(tok_complete() && st.current_token.type == json_token_type::type_unread, "consumed");
}
//@ C26
//@opts {"split":{"k":[0,2],"old":[0,1]}}
PROOF(optional_read) {
   int k = vp::range("k", 0, 2), old = vp::range("old", 0, 1);
   char c = ND(char, "c");
   script_n = script_pos = 0; gen = false;
   if (k == 0) add(NUL); else if (k == 1) add(STR, &c, 1); else add(BOOL);
   std::optional<t::leaf> o; if (old) o = t::leaf{7, 1};
   json_token_stream st(dummy);
   CATCHING(thrown, from_json(o, st));
   COVER("done");
   ASSERT(thrown == (k == 2), "null or a value");
   if (!thrown) ASSERT(k == 0 ? !o : o && o->c == (unsigned char)c && !o->kept, "null empties it, a value replaces it");
}
//@ C26
//@opts {"split":{"n":[0,6],"e":[0,3],"old":[0,1]}}
PROOF(variant_read) {
   int n = vp::range("n", 0, 6), e = vp::range("e", 0, 3), old = vp::range("old", 0, 1);
   char* nm = vp::buf("nm", n, "leafother");
   char c = ND(char, "c"); bool b = ND(uint8_t, "b") & 1, isb = ND(uint8_t, "isb") & 1;
   script_n = script_pos = 0; gen = false;
   add(e == 1 ? OBJ : ARR);
   if (e == 2) add(NUL); else add(STR, nm, n);
   if (isb) add(BOOL, nullptr, 0, b); else add(STR, &c, 1);
   if (e == 3) add(NUL); else add(EARR);
   std::variant<t::leaf, t::other> v;
   if (old) v = t::other{9}; else v = t::leaf{9, 1};
   json_token_stream st(dummy);
   CATCHING(thrown, from_json(v, st));
   bool l = n == 4 && nm[0] == 'l' && nm[1] == 'e' && nm[2] == 'a' && nm[3] == 'f';
   bool o = n == 5 && nm[0] == 'o' && nm[1] == 't' && nm[2] == 'h' && nm[3] == 'e' && nm[4] == 'r';
   ASSERT(thrown == !(e == 0 && ((l && !isb) || (o && isb))), "[type name, value] with a known name and a value of that type");
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   ASSERT(v.index() == (o ? 1u : 0u) && (o ? std::get<1>(v).c == b : std::get<0>(v).c == (unsigned char)c && !std::get<0>(v).kept), "that alternative with that value");
}
// objects: members in any order, unknown ones skipped, repeated ones: the last counts, absent ones unchanged
//@ C26
//@bounded objects of at most 3 members
//@opts {"split":{"n":[0,3],"k0":[0,6],"k1":[0,6],"k2":[0,6]},"unroll":100}
PROOF(object_read) {
   int n = vp::range("n", 0, 3), k[3] = {(int)vp::range("k0", 0, 6), (int)vp::range("k1", 0, 6), (int)vp::range("k2", 0, 6)};
   for (int i = n; i < 3; ++i) if (k[i]) return;
   char* s = vp::buf("s", 6, "");
   script_n = script_pos = 0; gen = false;
   int z = 1, a = 2, o = 3, l0 = 4, l1 = -1, ln = 1;
   t::rec r; r.z.c = z; r.a.c = a; r.opt = t::leaf{o}; r.list.push_back(t::leaf{l0});
   add(OBJ);
   for (int i = 0; i < n; ++i) {
      int v0 = (unsigned char)s[2 * i], v1 = (unsigned char)s[2 * i + 1];
      switch (k[i]) {
         case 0: add_key("z"); add(STR, s + 2 * i, 1); z = v0; break;
         case 1: add_key("a"); add(STR, s + 2 * i, 1); a = v0; break;
         case 2: add_key("opt"); add(STR, s + 2 * i, 1); o = v0; break;
         case 3: add_key("opt"); add(NUL); o = -1; break;
         case 4: add_key("list"); add(ARR); add(STR, s + 2 * i, 1); add(STR, s + 2 * i + 1, 1); add(EARR); l0 = v0; l1 = v1; ln = 2; break;
         case 5: add_key("aa"); add(ARR); add(OBJ); add_key("a"); add_str("q"); add(EOBJ); add(EARR); break;
         case 6: add_key(""); add(NUL); break;
      }
   }
   add(EOBJ);
   json_token_stream st(dummy);
   CATCHING(thrown, from_json(r, st));
   COVER("done");
   ASSERT(!thrown, "accepted");
   ASSERT(r.z.c == z && r.a.c == a, "members by name, inherited ones included");
   ASSERT(o < 0 ? !r.opt : r.opt && r.opt->c == o, "optional member");
   ASSERT((int)r.list.size() == ln && r.list[0].c == l0 && (ln < 2 || r.list[1].c == l1), "list member");
   ASSERT(tok_complete() && st.current_token.type == json_token_type::type_unread, "consumed exactly");
}
// malformed shapes
//@ C26
//@opts {"split":{"k":[0,3]}}
PROOF(object_malformed) {
   int k = vp::range("k", 0, 3);
   script_n = script_pos = 0; gen = false;
   add(k == 0 ? ARR : OBJ);
   add_key("a");
   if (k == 1) add(NUL); else add_str("x");
   add(k == 2 ? EARR : k == 3 ? BAD : EOBJ);
   t::rec r;
   json_token_stream st(dummy);
   CATCHING(thrown, from_json(r, st));
   COVER("done");
   ASSERT(thrown, "not an object of the type");
}
