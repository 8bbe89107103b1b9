//@flags -I@V/harness/shim_tok
#include "vp.hpp"
#include "std_runtime.hpp"
#include "abieos.hpp"
using namespace eosio;
using namespace abieos;
// a script of tokens, standing for any document
enum { NUL, BOOL, STR, OBJ, KEY, EOBJ, ARR, EARR, BAD };
struct tok { int type; const char* s; size_t n; bool b; };
static tok    script[16];
static size_t script_n, script_pos;
bool tok_complete() { return script_pos == script_n; }
template <typename H> bool tok_next(H& h) {
   if (script_pos == script_n) return false;
   const tok& t = script[script_pos++];
   switch (t.type) {
      case NUL: return h.Null();
      case BOOL: return h.Bool(t.b);
      case STR: return h.String(t.s, t.n, false);
      case OBJ: return h.StartObject();
      case KEY: return h.Key(t.s, t.n, false);
      case EOBJ: return h.EndObject(0);
      case ARR: return h.StartArray();
      case EARR: return h.EndArray(0);
      default: return false;
   }
}
static void reset() { script_n = script_pos = 0; }
static void add(int type, const char* s = "", bool b = false) { script[script_n++] = {type, s, strlen(s), b}; }
// what is left of the script, as the reader's user sees it
template <typename S> static bool next_is(S& st, size_t at) { return st.current_token.type == json_token_type::type_unread ? script_pos == at : script_pos == at + 1; }
// Each step of json_to_bin is checked against the contract of the serializer it calls next: that one is a stand-in
// which notes how it was called, writes '#' and may push its own entry (as objects, arrays and variants do).
static struct { int calls; const abi_type* type; bool allow, start, push; const jvalue* value; } g;
struct next_ser : abi_serializer {
   void json_to_bin(jvalue_to_bin_state& state, bool allow, const abi_type* type, bool start) const override {
      ++g.calls; g.type = type; g.allow = allow; g.start = start; g.value = state.received_value;
      state.writer.write('#');
      if (g.push) state.stack.push_back({type, allow});
   }
   void json_to_bin(json_to_bin_state& state, bool allow, const abi_type* type, bool start) const override {
      ++g.calls; g.type = type; g.allow = allow; g.start = start;
      state.writer.write('#');
      if (g.push) state.stack.push_back({type, allow});
   }
   void bin_to_json(bin_to_json_state&, bool, const abi_type*, bool) const override {}
};
static const next_ser nser;
static bool out_is(const std::vector<char>& v, const char* s, size_t n) { return v.size() == n && memcmp(v.data(), s, n) == 0; }
static char dummy[1];
static const char* names[] = {"a", "bc", "d"};
//@ C21
//@bounded structs of at most three members
//@opts {"split":{"deep":[0,1],"n":[0,3],"p":[0,3],"e":[0,3],"t":[0,10],"start":[0,1]}}
PROOF(object_step) {
   // n members, the first e of them ordinary and the others extensions; p members read
   size_t n = vp::range("n", 0, 3), p = vp::range("p", 0, 3), e = vp::range("e", 0, 3), t = vp::range("t", 0, 10);
   bool start = vp::range("start", 0, 1);
   ASSUME(p <= n && e <= n && (!start || p == 0));
   ASSUME(start || p > 0 || (t >= KEY && t <= EOBJ) || t > 8);   // a member's name or } comes first in any document
   ASSUME(!start || t == KEY || t == EOBJ || t > 8 || t == BAD);
   bool allow = ND(uint8_t, "allow") & 1, skipped = ND(uint8_t, "skipped") & 1, opening = !start || ND(uint8_t, "opening") & 1;
   g = {}; g.push = ND(uint8_t, "push") & 1;
   abi_type base("base", abi_type::builtin{}, &nser), plain("plain", abi_type::builtin{}, &nser), ext("plain$", abi_type::extension{&base}, &nser);
   abi_type::struct_ s;
   for (size_t i = 0; i < n; ++i) s.fields.push_back({names[i], i < e ? &plain : &ext});
   abi_type type("s", std::move(s), nullptr);
   reset();
   if (start) { if (opening) add(OBJ); else add(NUL); }
   size_t at = start ? 1 : 0;
   if (t <= 8 && t != KEY) add(t); else if (t == KEY) add(KEY, p < n ? names[p] : "zz"); else if (t == 9) add(KEY, "zz"); else add(KEY, n ? names[n - 1] : "q");
   bool key = t == KEY || t > 8, right = (t == KEY && p < n) || (t == 10 && n && p == n - 1);
   std::vector<char> out; vector_stream w{out};
   json_to_bin_state st(dummy, w);
   st.skipped_extension = skipped;
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, 7});
   if (!start) st.stack.push_back({&type, allow, (int)p - 1});
   CATCHING(thrown, abieos::json_to_bin((pseudo_object*)nullptr, st, allow, &type, start));
   if (t == BAD || !opening) { COVER("no object"); ASSERT(thrown && g.calls == 0, "an error when there is no object, or no token"); return; }
   if (t == EOBJ) {
      bool ok = p == n || (p >= e && allow);
      ASSERT(thrown == !ok, "} exactly when only extensions are missing, where they may be");
      if (thrown) { COVER("incomplete"); return; }
      COVER("end");
      ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D && st.stack[0].position == 7 && next_is(st, at + 1), "done, nothing written");
      ASSERT(st.skipped_extension == (skipped || p < n), "left-out extensions are noted");
   } else if (key) {
      bool ok = right && !skipped;
      ASSERT(thrown == !ok, "exactly the next member may follow, and none after a left-out extension");
      if (thrown) { COVER("wrong member"); return; }
      COVER("member");
      ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D + 1 && st.stack[D].type == &type && st.stack[D].allow_extensions == allow && st.stack[D].position == (int)p && next_is(st, at + 1), "one member further, only its name is consumed");
      ASSERT(st.skipped_extension == skipped, "nothing left out");
   } else {
      COVER("value");
      ASSERT(!thrown && g.calls == 1 && g.start && g.type == (p - 1 < e ? &plain : &ext), "the value is the member's type, from its start");
      ASSERT(g.allow == (allow && p == n), "extensions only in the last member");
      ASSERT(out_is(out, "#", 1) && st.stack.size() == D + (g.push ? 2 : 1) && st.stack[D].position == (int)p - 1 && next_is(st, at), "the value's tokens are left to it");
   }
}
//@ C21
//@opts {"split":{"deep":[0,1],"t":[0,8],"t2":[0,1],"more":[0,1]}}
PROOF(array_step) {
   size_t t = vp::range("t", 0, 8);
   bool start = vp::range("t2", 0, 1);
   g = {}; g.push = ND(uint8_t, "push") & 1;
   abi_type el("el", abi_type::builtin{}, &nser), arr("el[]", abi_type::array{&el}, nullptr);
   bool allow = ND(uint8_t, "allow") & 1;
   int pos = ND(int, "pos"); ASSUME(pos >= -1 && pos < 0x7fffffff);
   reset(); add(t);
   std::vector<char> out; vector_stream w{out};
   json_to_bin_state st(dummy, w);
   w.write('x'); w.write('y');
   const size_t E = vp::range("more", 0, 1) ? 6 : 1; // counts before
   for (size_t i = 0; i < E; ++i) st.size_insertions.push_back({0, 5});
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, 7});
   if (!start) { st.size_insertions.push_back({1, 0}); st.size_insertions.push_back({2, 9}); st.stack.push_back({&arr, false, pos, E}); }
   CATCHING(thrown, abieos::json_to_bin((pseudo_array*)nullptr, st, allow, &arr, start));
   ASSERT(thrown == (t == BAD || (start && t != ARR)), "an error exactly when no array starts, or no token");
   if (thrown) return;
   ASSERT(st.size_insertions[0].position == 0 && st.size_insertions[0].size == 5 && st.size_insertions[E - 1].size == 5 && st.stack[0].position == 7, "what is below is untouched");
   if (start) {
      COVER("start");
      ASSERT(g.calls == 0 && out_is(out, "xy", 2) && st.stack.size() == D + 1 && st.stack[D].type == &arr && !st.stack[D].allow_extensions && st.stack[D].position == -1, "one new entry, before the first element");
      ASSERT(st.stack[D].size_insertion_index == E && st.size_insertions.size() == E + 1 && st.size_insertions[E].position == 2, "the count goes here");
      ASSERT(next_is(st, 1), "only [ is consumed");
      return;
   }
   ASSERT(st.size_insertions.size() == E + 2 && st.size_insertions[E].position == 1 && st.size_insertions[E + 1].size == 9, "other counts are untouched");
   if (t == EARR) {
      COVER("end");
      ASSERT(g.calls == 0 && out_is(out, "xy", 2) && st.stack.size() == D && next_is(st, 1), "done");
      ASSERT(st.size_insertions[E].size == (uint32_t)pos + 1, "the number of elements read");
   } else {
      COVER("element");
      ASSERT(g.calls == 1 && g.type == &el && g.start && !g.allow && out_is(out, "xy#", 3), "one element, from its start, no extensions");
      ASSERT(st.stack.size() == D + (g.push ? 2 : 1) && st.stack[D].position == pos + 1 && st.stack[D].size_insertion_index == E && next_is(st, 0), "one element further");
   }
}
//@ C21
//@bounded variants of three alternatives
//@opts {"split":{"deep":[0,1],"t":[0,8],"ps":[0,4],"k":[0,3]}}
PROOF(variant_step) {
   size_t t = vp::range("t", 0, 8), ps = vp::range("ps", 0, 4), k = vp::range("k", 0, 3); // ps 0: start; 1..4: position ps-2
   bool start = ps == 0;
   g = {}; g.push = ND(uint8_t, "push") & 1;
   abi_type t0("t0", abi_type::builtin{}, &nser), t1("t1", abi_type::builtin{}, &nser), t2("t2", abi_type::builtin{}, &nser);
   const abi_type* ts[] = {&t0, &t1, &t2};
   abi_type::variant alts;
   for (size_t i = 0; i < 3; ++i) alts.push_back({names[i], ts[i]});
   abi_type var("v", std::move(alts), nullptr);
   bool allow = ND(uint8_t, "allow") & 1;
   reset(); add(t, k < 3 ? names[k] : "b");
   std::vector<char> out; vector_stream w{out};
   json_to_bin_state st(dummy, w);
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, 7});
   ASSUME(ps < 2 || k < 3);
   if (!start) { st.stack.push_back({&var, allow, (int)ps - 2}); st.stack[D].variant_type_index = ps > 1 ? k : 0; }
   CATCHING(thrown, abieos::json_to_bin((pseudo_variant*)nullptr, st, allow, &var, start));
   bool ok = t != BAD && (start ? t == ARR : ps == 1 ? t == STR && k < 3 : ps == 2 ? t != EARR : ps == 3 ? t == EARR : false);
   ASSERT(thrown == !ok, "[ name value ] and nothing else");
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   ASSERT(st.stack[0].position == 7, "entries below untouched");
   if (start) ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D + 1 && st.stack[D].type == &var && st.stack[D].allow_extensions == allow && st.stack[D].position == -1 && next_is(st, 1), "one new entry");
   else if (ps == 1) {
      char c = (char)k;
      ASSERT(g.calls == 0 && out_is(out, &c, 1) && st.stack.size() == D + 1 && st.stack[D].position == 0 && st.stack[D].variant_type_index == k && next_is(st, 1), "the index of the named alternative");
   } else if (ps == 2) {
      ASSERT(g.calls == 1 && g.type == ts[k] && g.start && g.allow == allow && out_is(out, "#", 1) && st.stack[D].position == 1 && next_is(st, 0), "the value is of that alternative");
      ASSERT(st.stack.size() == D + (g.push ? 2 : 1), "its own entry is on top");
   } else ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D && next_is(st, 1), "done");
}
//@ C21
//@opts {"split":{"t":[0,8],"which":[0,3]}}
PROOF(optional_and_extension) {
   size_t t = vp::range("t", 0, 8), which = vp::range("which", 0, 3);
   g = {};
   bool allow = ND(uint8_t, "allow") & 1, isopt = which & 1, tree = which & 2;
   abi_type el("el", abi_type::builtin{}, &nser), opt("el?", abi_type::optional{&el}, nullptr), ext("el$", abi_type::extension{&el}, nullptr);
   reset(); add(t, "x");
   std::vector<char> out; vector_stream w{out};
   bool null = t == NUL && isopt;
   if (tree) {
      jvalue v;
      if (t == BOOL) v.value = true; else if (t != NUL) v.value = std::string("x");
      jvalue_to_bin_state st{{out}, &v};
      CATCHING(thrown, if (isopt) abieos::json_to_bin((pseudo_optional*)nullptr, st, allow, &opt, true); else abieos::json_to_bin((pseudo_extension*)nullptr, st, allow, &ext, true));
      COVER("tree");
      ASSERT(!thrown && (null || g.value == &v) && st.stack.empty(), "the same value is left to the inner type");
   } else {
      json_to_bin_state st(dummy, w);
      CATCHING(thrown, if (isopt) abieos::json_to_bin((pseudo_optional*)nullptr, st, allow, &opt, true); else abieos::json_to_bin((pseudo_extension*)nullptr, st, allow, &ext, true));
      ASSERT(thrown == (t == BAD && isopt), "an error exactly when there is no token");
      if (thrown) return;
      COVER("tokens");
      ASSERT(next_is(st, null ? 1 : 0) && st.stack.empty(), "null is consumed, a value is left to the inner type");
   }
   ASSERT(g.calls == !null, "one value unless null");
   if (!null) ASSERT(g.type == &el && g.start && g.allow == allow, "of the inner type");
   ASSERT(null ? out_is(out, "\0", 1) : isopt ? out_is(out, "\1#", 2) : out_is(out, "#", 1), "a presence byte, then the value");
}
// the driver: runs the top entry until none is left, refuses to nest deeper than the limit, demands the end of the
// document, and puts each element count where its array started
static struct { unsigned depth, calls, ticks; bool order; unsigned nins, cnt[3], at[3]; } dr;
struct chain_ser : next_ser {
   void json_to_bin(json_to_bin_state& state, bool allow, const abi_type* type, bool start) const override {
      dr.order = dr.order && start == (dr.calls == 0) && allow && (start || state.stack.back().type == type);
      if (dr.calls == 0) {
         state.get_null();
         for (unsigned i = 0; i < dr.nins; ++i) {
            while (state.writer.data.size() < dr.at[i]) state.writer.write('.');
            state.size_insertions.push_back({state.writer.data.size(), dr.cnt[i]});
         }
         state.writer.write('!');
      }
      ++dr.calls;
      if (dr.calls <= dr.depth) state.stack.push_back({type, true});
      else state.stack.pop_back();
   }
};
static const chain_ser cser;
//@ C21
//@bounded depths 1 to 3 and 127 to 130
//@opts {"split":{"depth":[1,130]},"unroll":400}
PROOF(nesting_limit) {
   size_t depth = vp::range("depth", 1, 130);
   ASSUME(depth <= 3 || depth >= 127);
   dr = {(unsigned)depth, 0, 0, true, 0, {}, {}};
   reset(); add(NUL);
   bool more = ND(uint8_t, "more") & 1;
   if (more) add(NUL);
   abi_type type("t", abi_type::builtin{}, &cser);
   std::vector<char> bin;
   CATCHING(thrown, abieos::json_to_bin(bin, &type, std::string_view("null", 4), [] { ++dr.ticks; }));
   ASSERT(thrown == (depth > 128 || more), "fails exactly when nested deeper than 128, or text follows");
   ASSERT(dr.order, "the first call starts the type, then the top entry is continued");
   if (thrown) { COVER("rejected"); return; }
   COVER("done");
   ASSERT(dr.calls == 2 * depth && dr.ticks == 2 * depth - 1, "until nothing is left, with the callback before each step");
   ASSERT(out_is(bin, "!", 1), "the bytes are all that was written");
}
//@ C21
//@bounded at most three arrays, four bytes apart, counts below 16384
//@opts {"split":{"nins":[0,3],"p0":[0,2],"p1":[0,1],"c0":[0,1],"c1":[0,1]}}
PROOF(element_counts) {
   unsigned nins = vp::range("nins", 0, 3), p0 = vp::range("p0", 0, 2), p1 = vp::range("p1", 0, 1);
   unsigned c0 = vp::range("c0", 0, 1), c1 = vp::range("c1", 0, 1);
   if ((!nins && p0 + c0) || (nins < 2 && p1 + c1)) return;
   unsigned v[3] = {c0 ? (unsigned)vp::range("v0b", 128, 16383) : (unsigned)vp::range("v0", 0, 127), c1 ? (unsigned)vp::range("v1b", 128, 16383) : (unsigned)vp::range("v1", 0, 127), 3};
   dr = {1, 0, 0, true, nins, {v[0], v[1], v[2]}, {p0, p0 + p1, p0 + p1 + 1}};
   reset(); add(NUL);
   abi_type type("t", abi_type::builtin{}, &cser);
   std::vector<char> bin;
   CATCHING(thrown, abieos::json_to_bin(bin, &type, std::string_view("null", 4), [] {}));
   ASSERT(!thrown, "no error");
   COVER("done");
   char want[32];
   unsigned n = 0, at = 0;
   for (unsigned i = 0; i < nins; ++i) {
      while (at < dr.at[i]) { want[n++] = '.'; ++at; }
      if (i == 0 ? c0 : i == 1 ? c1 : 0) { want[n++] = (char)(v[i] | 0x80); want[n++] = (char)(v[i] >> 7); }
      else want[n++] = (char)v[i];
   }
   want[n++] = '!';
   ASSERT(out_is(bin, want, n), "each count once, before its elements");
}
// ---- the order-independent variant: the document is read into a tree of values, which the steps walk
//@ C21
//@bounded structs of at most three members
//@opts {"split":{"deep":[0,1],"n":[0,3],"p":[0,3],"e":[0,3],"mask":[0,7],"start":[0,1]}}
PROOF(tree_object_step) {
   size_t n = vp::range("n", 0, 3), p = vp::range("p", 0, 3), e = vp::range("e", 0, 3), mask = vp::range("mask", 0, 7);
   bool start = vp::range("start", 0, 1);
   if (p > n || e > n || (start && p)) return;
   bool allow = ND(uint8_t, "allow") & 1, skipped = ND(uint8_t, "skipped") & 1, other = ND(uint8_t, "other") & 1, object = !start || ND(uint8_t, "object") & 1;
   g = {}; g.push = ND(uint8_t, "push") & 1;
   abi_type base("base", abi_type::builtin{}, &nser), plain("plain", abi_type::builtin{}, &nser), ext("plain$", abi_type::extension{&base}, &nser);
   abi_type::struct_ s;
   for (size_t i = 0; i < n; ++i) s.fields.push_back({names[i], i < e ? &plain : &ext});
   abi_type type("s", std::move(s), nullptr);
   jvalue v, below;
   const jvalue* member[3] = {};
   if (object) {
      v.value = jobject{};
      auto& o = std::get<jobject>(v.value);
      for (size_t i = 3; i--;) if (mask >> i & 1) member[i] = &o[names[i]];
      if (other) o["ab"];
   }
   std::vector<char> out;
   jvalue_to_bin_state st{{out}, start ? &v : &below};
   st.skipped_extension = skipped;
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, &below, 7});
   if (!start) st.stack.push_back({&type, allow, &v, (int)p - 1});
   CATCHING(thrown, abieos::json_to_bin((pseudo_object*)nullptr, st, allow, &type, start));
   bool here = p < n && member[p < n ? p : 0], ok = object && (p == n || (here ? !skipped : p >= e && allow));
   ASSERT(thrown == !ok, "an error when there is no object, a member is missing, or one follows a left-out extension");
   if (thrown) { COVER("rejected"); return; }
   ASSERT(st.stack[0].position == 7 && st.stack[0].value == &below, "entries below untouched");
   ASSERT(st.skipped_extension == (skipped || (p < n && !here)), "left-out extensions are noted");
   if (p == n) { COVER("end"); ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D, "done, nothing written"); return; }
   ASSERT(st.stack[D].type == &type && st.stack[D].value == &v && st.stack[D].allow_extensions == allow && st.stack[D].position == (int)p, "one member further");
   if (here) {
      COVER("member");
      ASSERT(g.calls == 1 && g.start && g.value == member[p] && g.type == (p < e ? &plain : &ext), "the member's value, by name, with its type");
      ASSERT(g.allow == (allow && p + 1 == n) && out_is(out, "#", 1) && st.stack.size() == D + (g.push ? 2 : 1), "extensions only in the last member");
   } else { COVER("left out"); ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D + 1, "nothing written"); }
}
//@ C21
//@bounded arrays of at most three elements
//@opts {"split":{"deep":[0,1],"n":[0,3],"p":[0,4]}}
PROOF(tree_array_step) {
   size_t n = vp::range("n", 0, 3), p = vp::range("p", 0, 4); // p 4: start
   bool start = p == 4;
   if (!start && p > n) return;
   g = {}; g.push = ND(uint8_t, "push") & 1;
   bool allow = ND(uint8_t, "allow") & 1, array = !start || ND(uint8_t, "array") & 1;
   abi_type el("el", abi_type::builtin{}, &nser), arr("el[]", abi_type::array{&el}, nullptr);
   jvalue v, below;
   if (array) v.value = jarray(n);
   std::vector<char> out;
   jvalue_to_bin_state st{{out}, start ? &v : &below};
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, &below, 7});
   if (!start) st.stack.push_back({&arr, false, &v, (int)p - 1});
   CATCHING(thrown, abieos::json_to_bin((pseudo_array*)nullptr, st, allow, &arr, start));
   ASSERT(thrown == !array, "an error exactly when there is no array");
   if (thrown) { COVER("rejected"); return; }
   size_t i = start ? 0 : p;
   char want[2] = {(char)n, '#'};
   ASSERT(out_is(out, start ? want : want + 1, (start ? 1 : 0) + (i < n)), "the count first, then one element at a time");
   ASSERT(st.stack[0].position == 7, "entries below untouched");
   if (i == n) { COVER("end"); ASSERT(g.calls == 0 && st.stack.size() == D, "done"); return; }
   COVER("element");
   ASSERT(st.stack[D].type == &arr && st.stack[D].value == &v && st.stack[D].position == (int)i && !st.stack[D].allow_extensions, "one element further");
   ASSERT(g.calls == 1 && g.start && !g.allow && g.type == &el && g.value == &std::get<jarray>(v.value)[i] && st.stack.size() == D + (g.push ? 2 : 1), "the next element, no extensions");
}
//@ C21
//@bounded variants of three alternatives, arrays of at most three elements
//@opts {"split":{"deep":[0,1],"n":[0,3],"ps":[0,2],"k":[0,3],"first":[0,1]}}
PROOF(tree_variant_step) {
   size_t n = vp::range("n", 0, 3), ps = vp::range("ps", 0, 2), k = vp::range("k", 0, 3); // ps 0: start; then position 0, 1
   bool str = vp::range("first", 0, 1), start = ps == 0;
   if (!start && (n != 2 || !str)) return;
   g = {}; g.push = ND(uint8_t, "push") & 1;
   bool allow = ND(uint8_t, "allow") & 1, array = !start || ND(uint8_t, "array") & 1;
   abi_type t0("t0", abi_type::builtin{}, &nser), t1("t1", abi_type::builtin{}, &nser), t2("t2", abi_type::builtin{}, &nser);
   const abi_type* ts[] = {&t0, &t1, &t2};
   abi_type::variant alts;
   for (size_t i = 0; i < 3; ++i) alts.push_back({names[i], ts[i]});
   abi_type var("v", std::move(alts), nullptr);
   jvalue v, below;
   if (array) {
      v.value = jarray(n);
      if (n && str) std::get<jarray>(v.value)[0].value = std::string(k < 3 ? names[k] : "b");
   }
   std::vector<char> out;
   jvalue_to_bin_state st{{out}, start ? &v : &below};
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, &below, 7});
   if (!start) st.stack.push_back({&var, allow, &v, (int)ps - 1});
   CATCHING(thrown, abieos::json_to_bin((pseudo_variant*)nullptr, st, allow, &var, start));
   ASSERT(thrown == !(start ? array && n == 2 && str : ps != 1 || k < 3), "[ name, value ] and nothing else");
   if (thrown) { COVER("rejected"); return; }
   COVER("ok");
   ASSERT(st.stack[0].position == 7, "entries below untouched");
   if (start) ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D + 1 && st.stack[D].type == &var && st.stack[D].value == &v && st.stack[D].allow_extensions == allow && st.stack[D].position == 0, "one new entry");
   else if (ps == 1) {
      char c[2] = {(char)k, '#'};
      ASSERT(g.calls == 1 && g.type == ts[k] && g.start && g.allow == allow && g.value == &std::get<jarray>(v.value)[1] && out_is(out, c, 2), "the index of the named alternative, then its value");
      ASSERT(st.stack[D].position == 1 && st.stack.size() == D + (g.push ? 2 : 1), "its own entry is on top");
   } else ASSERT(g.calls == 0 && out.empty() && st.stack.size() == D, "done");
}
// the driver of the tree variant
struct tree_chain_ser : next_ser {
   void json_to_bin(jvalue_to_bin_state& state, bool allow, const abi_type* type, bool start) const override {
      dr.order = dr.order && start == (dr.calls == 0) && allow && (start || state.stack.back().type == type);
      if (dr.calls == 0) g.value = state.received_value;
      if (++dr.calls <= dr.depth) state.stack.push_back({type, true});
      else state.stack.pop_back();
      state.writer.write('!');
   }
};
static const tree_chain_ser tcser;
//@ C21
//@bounded three nested entries
//@opts {"split":{"depth":[1,3]}}
PROOF(tree_driver) {
   size_t depth = vp::range("depth", 1, 3);
   g = {};
   dr = {(unsigned)depth, 0, 0, true, 0, {}, {}};
   abi_type type("t", abi_type::builtin{}, &tcser);
   std::vector<char> bin;
   jvalue v;
   CATCHING(thrown, abieos::json_to_bin(bin, &type, v, [] { ++dr.ticks; }));
   ASSERT(!thrown && dr.order && g.value == &v, "the first call starts the type on the whole value, then the top entry is continued");
   ASSERT(dr.calls == 2 * depth && dr.ticks == 2 * depth - 1 && bin.size() == 2 * depth, "until nothing is left");
   COVER("done");
}
// ---- reading the tree: each event extends the value on top of the stack
static bool is(const jvalue& v, int type, const char* s, bool b) {
   switch (type) {
      case NUL: return std::holds_alternative<std::nullptr_t>(v.value);
      case BOOL: return std::holds_alternative<bool>(v.value) && std::get<bool>(v.value) == b;
      case STR: return std::holds_alternative<std::string>(v.value) && std::get<std::string>(v.value) == s;
      case OBJ: return std::holds_alternative<jobject>(v.value) && std::get<jobject>(v.value).empty();
      default: return std::holds_alternative<jarray>(v.value) && std::get<jarray>(v.value).empty();
   }
}
static bool event(json_to_jvalue_state& st, int type, const char* s, bool b) {
   switch (type) {
      case NUL: return st.Null();
      case BOOL: return st.Bool(b);
      case STR: return st.String(s, strlen(s), false);
      case OBJ: return st.StartObject();
      case KEY: return st.Key(s, strlen(s), false);
      case EOBJ: return st.EndObject(0);
      case ARR: return st.StartArray();
      default: return st.EndArray(0);
   }
}
//@ C21
//@bounded containers of at most two values before
//@opts {"split":{"t":[0,7],"where":[0,3]}}
PROOF(tree_event) {
   // 0: the whole document; 1: an object member whose name was read (new); 2: the same (replacing an earlier one); 3: an array element
   size_t t = vp::range("t", 0, 7), where = vp::range("where", 0, 3);
   bool b = ND(uint8_t, "b") & 1;
   std::string error;
   json_to_jvalue_state st{error};
   jvalue doc, top;
   st.stack.push_back({&top});
   st.started = where != 0;
   if (where == 0) st.stack.push_back({&doc});
   // what a reader can send: a value; inside an object also a name or }, inside an array ]
   if (where == 0 && (t == KEY || t == EOBJ || t == EARR)) return;
   if ((where == 1 || where == 2) && t == EARR) return;
   if (where == 3 && (t == KEY || t == EOBJ)) return;
   if (where) {
      if (where < 3) { doc.value = jobject{}; auto& o = std::get<jobject>(doc.value); o["a"].value = true; if (where == 2) o["bc"].value = false; st.stack.push_back({&doc, "bc"}); }
      else { doc.value = jarray(1); std::get<jarray>(doc.value)[0].value = true; st.stack.push_back({&doc}); }
   }
   if (where == 0) st.stack.erase(st.stack.begin());
   size_t base = where ? 2 : 1;
   ASSERT(event(st, t, "xy", b), "accepted");
   if (t == KEY) { COVER("name"); ASSERT(st.stack.size() == base && st.stack.back().key == "xy" && st.stack.back().value == &doc, "the name is kept for the next value"); return; }
   if (t == EOBJ || t == EARR) { COVER("end"); ASSERT(st.stack.size() == base - 1 && st.stack[0].value == &top, "the container is complete"); return; }
   jvalue* v = &doc;
   if (where == 1 || where == 2) {
      auto& o = std::get<jobject>(doc.value);
      ASSERT(o.size() == 2 && is(o["a"], BOOL, "", true), "other members are kept");
      v = &o["bc"];
   } else if (where == 3) {
      auto& a = std::get<jarray>(doc.value);
      ASSERT(a.size() == 2 && is(a[0], BOOL, "", true), "earlier elements are kept");
      v = &a[1];
   }
   COVER("value");
   ASSERT(is(*v, t, "xy", b), "the value is stored in its place");
   if (t == OBJ || t == ARR) ASSERT(st.stack.size() == (where ? base + 1 : 1) && st.stack.back().value == v, "and is extended next if it is a container");
   else ASSERT(st.stack.size() == (where ? base : 0) && (!where || st.stack.back().value == &doc), "and its container is extended next");
}
//@ C21
//@bounded depths 0, 1 and 127 to 130
//@opts {"unroll":400,"split":{"t":[0,7],"n":[0,5]}}
PROOF(tree_nesting) {
   size_t t = vp::range("t", 0, 7), k = vp::range("n", 0, 5), n = k < 2 ? k : 125 + k;
   if ((t == KEY || t == EOBJ || t == EARR) && n == 0) return;
   std::string error;
   json_to_jvalue_state st{error};
   st.started = true;
   jvalue v;
   v.value = t == KEY || t == EOBJ ? jvalue{jobject{}}.value : jvalue{jarray{}}.value;
   for (size_t i = 0; i < n; ++i) st.stack.push_back({&v});
   bool ok = event(st, t, "x", false);
   COVER("done");
   ASSERT(n != 0 || !ok, "nothing may follow the document");
   ASSERT(n <= 128 || !ok, "fails deeper than 128");
   ASSERT(n == 0 || n >= 127 || ok, "and not at moderate depth");
}
