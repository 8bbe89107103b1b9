//@flags -I@V/harness/shim_tok
#include "vp.hpp"
#include "abieos.hpp"
using namespace eosio;
using namespace abieos;
bool tok_complete() { return true; }
template <typename H> bool tok_next(H&) { return false; }
// Each step of bin_to_json is checked against the contract of the serializer it calls next: that one is a stand-in
// which notes how it was called, writes '#' and may push its own entry (as objects, arrays and variants do).
static struct { int calls; const abi_type* type; bool allow, start, push; } g;
struct next_ser : abi_serializer {
   void json_to_bin(jvalue_to_bin_state&, bool, const abi_type*, bool) const override {}
   void json_to_bin(json_to_bin_state&, bool, const abi_type*, bool) const override {}
   void bin_to_json(bin_to_json_state& state, bool allow, const abi_type* type, bool start) const override {
      ++g.calls; g.type = type; g.allow = allow; g.start = start;
      state.writer.write('#');
      if (g.push) state.stack.push_back({type, allow});
   }
};
static const next_ser nser;
static bool out_is(const std::vector<char>& v, const char* s) { return v.size() == strlen(s) && memcmp(v.data(), s, v.size()) == 0; }
//@ C20
//@bounded structs of at most three members
//@opts {"split":{"deep":[0,1],"n":[0,3],"p":[0,3],"exts":[0,7]}}
PROOF(object_step) {
   size_t n = vp::range("n", 0, 3), p = vp::range("p", 0, 3), exts = vp::range("exts", 0, 7);
   ASSUME(p <= n && exts < (1u << n));
   bool allow = ND(uint8_t, "allow") & 1, at_end = ND(uint8_t, "at_end") & 1;
   g = {}; g.push = ND(uint8_t, "push") & 1;
   abi_type base("base", abi_type::builtin{}, &nser), plain("plain", abi_type::builtin{}, &nser), ext("plain$", abi_type::extension{&base}, &nser);
   abi_type::struct_ s;
   const char* names[] = {"a", "bc", "d"};
   for (size_t i = 0; i < n; ++i) s.fields.push_back({names[i], exts >> i & 1 ? &ext : &plain});
   abi_type type("s", std::move(s), nullptr);
   char byte = 0;
   input_stream bin{&byte, at_end ? 0u : 1u};
   std::vector<char> out; vector_stream w{out};
   bin_to_json_state st{bin, w};
   const size_t D = vp::range("deep", 0, 1) ? 4 : 1; // entries below
   for (size_t i = 0; i < D; ++i) st.stack.push_back({nullptr, true, 7, 0});
   st.stack.push_back({&type, allow, (int)p - 1, 0});
   CATCHING(thrown, abieos::bin_to_json((pseudo_object*)nullptr, st, allow, &type, false));
   COVER("done");
   ASSERT(!thrown, "no error");
   ASSERT(st.stack[0].type == nullptr && st.stack[0].position == 7, "entries below untouched");
   if (p == n) {
      ASSERT(g.calls == 0 && st.stack.size() == D && out_is(out, "}"), "after the last member: } and done");
      return;
   }
   ASSERT(st.stack[D].type == &type && st.stack[D].position == (int)p && st.stack[D].allow_extensions == allow, "one member further");
   bool is_ext = exts >> p & 1;
   if (at_end && is_ext && allow) {
      ASSERT(g.calls == 0 && st.stack.size() == D + 1 && out.empty() && st.skipped_extension, "an absent extension is left out");
      return;
   }
   ASSERT(!st.skipped_extension, "nothing skipped");
   std::string want = p ? "," : "";
   want += std::string("\"") + names[p] + "\":#";
   ASSERT(out_is(out, want.c_str()), "comma between members, the name, a colon, the value");
   ASSERT(g.calls == 1 && g.start && g.type == (is_ext ? &ext : &plain), "the value is the member's type, from its start");
   ASSERT(g.allow == (allow && p + 1 == n), "extensions only in the last member");
   ASSERT(st.stack.size() == D + (g.push ? 2 : 1), "the member's own entry is on top");
}
//@ C20
PROOF(object_array_variant_start) {
   bool allow = ND(uint8_t, "allow") & 1;
   g = {};
   abi_type el("el", abi_type::builtin{}, &nser);
   abi_type::struct_ s; s.fields.push_back({"a", &el});
   abi_type type("s", std::move(s), nullptr), arr("el[]", abi_type::array{&el}, nullptr), var("v", abi_type::variant{{"a", &el}}, nullptr);
   uint8_t kind = vp::range("kind", 0, 2);
   size_t n = vp::range("n", 0, 12);
   char* d = vp::buf("d", n, "");
   input_stream bin{d, n};
   std::vector<char> out; vector_stream w{out};
   bin_to_json_state st{bin, w};
   uint32_t size = 0; size_t used = 0; bool ok = true;
   if (kind == 1) {
      input_stream b2{d, n};
      CATCHING(bad, varuint32_from_bin(size, b2));
      ok = !bad; used = b2.pos - d;
   }
   const abi_type* t = kind == 0 ? &type : kind == 1 ? &arr : &var;
   CATCHING(thrown,
      if (kind == 0) abieos::bin_to_json((pseudo_object*)nullptr, st, allow, t, true);
      else if (kind == 1) abieos::bin_to_json((pseudo_array*)nullptr, st, allow, t, true);
      else abieos::bin_to_json((pseudo_variant*)nullptr, st, allow, t, true));
   ASSERT(thrown == !ok, "fails exactly when the element count cannot be read");
   if (thrown) return;
   COVER("done");
   ASSERT(g.calls == 0 && out_is(out, kind == 0 ? "{" : "["), "opening bracket only");
   ASSERT(st.stack.size() == 1 && st.stack[0].type == t && st.stack[0].position == -1, "one new entry, before the first part");
   ASSERT(st.stack[0].allow_extensions == (kind == 1 ? false : allow), "extensions as allowed, never in arrays");
   ASSERT(kind != 1 || st.stack[0].array_size == size, "the element count");
   ASSERT((size_t)(bin.pos - d) == used, "only the count is consumed");
}
//@ C20
PROOF(array_step) {
   g = {}; g.push = ND(uint8_t, "push") & 1;
   abi_type el("el", abi_type::builtin{}, &nser), arr("el[]", abi_type::array{&el}, nullptr);
   uint32_t size = ND(uint32_t, "size"); int pos = ND(int, "pos");
   ASSUME(pos >= -1 && pos < 0x7fffffff && (int64_t)pos < (int64_t)size);
   bool allow = ND(uint8_t, "allow") & 1;
   char byte = 0;
   input_stream bin{&byte, 1};
   std::vector<char> out; vector_stream w{out};
   bin_to_json_state st{bin, w};
   st.stack.push_back({&arr, false, pos, size});
   CATCHING(thrown, abieos::bin_to_json((pseudo_array*)nullptr, st, allow, &arr, false));
   ASSERT(!thrown, "no error");
   ASSERT(bin.pos == &byte, "elements consume the input, not the array");
   if ((uint32_t)(pos + 1) < size) {
      COVER("element");
      ASSERT(out_is(out, pos >= 0 ? ",#" : "#"), "comma between elements");
      ASSERT(g.calls == 1 && g.type == &el && g.start && !g.allow, "one element, from its start, no extensions");
      ASSERT(st.stack.size() == (g.push ? 2 : 1) && st.stack[0].type == &arr && st.stack[0].position == pos + 1 && st.stack[0].array_size == size, "one element further");
   } else {
      COVER("end");
      ASSERT(g.calls == 0 && out_is(out, "]") && st.stack.empty(), "after the last element: ] and done");
   }
}
//@ C20
//@bounded variants of at most three alternatives
//@opts {"split":{"n":[1,3],"k":[0,3]}}
PROOF(variant_step) {
   g = {}; g.push = ND(uint8_t, "push") & 1;
   size_t n = vp::range("n", 1, 3);
   abi_type t0("t0", abi_type::builtin{}, &nser), t1("t1", abi_type::builtin{}, &nser), t2("t2", abi_type::builtin{}, &nser);
   const abi_type* ts[] = {&t0, &t1, &t2};
   const char* names[] = {"x", "yy", "z"};
   abi_type::variant alts;
   for (size_t i = 0; i < n; ++i) alts.push_back({names[i], ts[i]});
   abi_type var("v", std::move(alts), nullptr);
   bool allow = ND(uint8_t, "allow") & 1, second = ND(uint8_t, "second") & 1;
   // k < 3: that alternative; 3: any input that names none
   size_t k = vp::range("k", 0, 3), m = k < 3 ? 2 : vp::range("m", 0, 7);
   char* d = vp::buf("d", k < 3 ? 0 : m, "");
   char some[2] = {(char)k, 0};
   if (k < 3) d = some;
   uint32_t index = 0;
   input_stream b2{d, m};
   CATCHING(bad, varuint32_from_bin(index, b2));
   if (k == 3) ASSUME(bad || index >= n);
   input_stream bin{d, m};
   std::vector<char> out; vector_stream w{out};
   bin_to_json_state st{bin, w};
   st.stack.push_back({&var, allow, second ? 0 : -1, 0});
   CATCHING(thrown, abieos::bin_to_json((pseudo_variant*)nullptr, st, allow, &var, false));
   if (second) {
      COVER("end");
      ASSERT(!thrown && g.calls == 0 && out_is(out, "]") && st.stack.empty() && bin.pos == d, "after the value: ] and done");
      return;
   }
   ASSERT(thrown == (bad || index >= n), "fails exactly when there is no such alternative");
   if (thrown) { COVER("bad"); ASSERT(g.calls == 0, "nothing is read as a value"); return; }
   COVER("value");
   ASSERT(out.size() == 4 + strlen(names[index]) && out[0] == '"' && memcmp(out.data() + 1, names[index], strlen(names[index])) == 0 && memcmp(out.data() + out.size() - 3, "\",#", 3) == 0, "the name of the alternative, a comma, the value");
   ASSERT(g.calls == 1 && g.type == ts[index] && g.start && g.allow == allow, "the value is of that alternative");
   ASSERT(bin.pos == b2.pos, "only the index is consumed");
   ASSERT(st.stack[0].position == 0 && st.stack.size() == (g.push ? 2 : 1), "one step further");
}
//@ C20
PROOF(optional_and_extension) {
   g = {};
   bool allow = ND(uint8_t, "allow") & 1, isopt = ND(uint8_t, "isopt") & 1, have = ND(uint8_t, "have") & 1;
   abi_type el("el", abi_type::builtin{}, &nser), opt("el?", abi_type::optional{&el}, nullptr), ext("el$", abi_type::extension{&el}, nullptr);
   char flag = ND(uint8_t, "flag") & 1;
   input_stream bin{&flag, have ? 1u : 0u};
   std::vector<char> out; vector_stream w{out};
   bin_to_json_state st{bin, w};
   CATCHING(thrown,
      if (isopt) abieos::bin_to_json((pseudo_optional*)nullptr, st, allow, &opt, true);
      else abieos::bin_to_json((pseudo_extension*)nullptr, st, allow, &ext, true));
   ASSERT(thrown == (isopt && !have), "fails exactly when the presence byte is missing");
   if (thrown) return;
   COVER("done");
   bool present = !isopt || flag;
   ASSERT(bin.pos == &flag + isopt, "only the presence byte is consumed");
   ASSERT(out_is(out, present ? "#" : "null"), "the value, or null");
   ASSERT(g.calls == present, "one value when present");
   if (present) ASSERT(g.type == &el && g.start && g.allow == allow, "the value is of the inner type");
   ASSERT(st.stack.empty(), "no entry of its own");
}
// the driver: runs the top entry until none is left, and refuses to nest deeper than the limit
static struct { unsigned want, calls, ticks; bool order; } dr;
struct chain_ser : next_ser { // opens `want` levels, then closes them
   void bin_to_json(bin_to_json_state& state, bool allow, const abi_type* type, bool start) const override {
      dr.order = dr.order && start == (dr.calls == 0) && allow && (start || state.stack.back().type == type);
      ++dr.calls;
      if (dr.calls <= dr.want) { state.stack.push_back({type, true}); state.writer.write('('); }
      else { state.stack.pop_back(); state.writer.write(')'); }
   }
};
static const chain_ser cser;
//@ C20
//@bounded depths up to 130
//@opts {"split":{"depth":[1,130]},"unroll":400}
PROOF(whole_value) {
   size_t depth = vp::range("depth", 1, 130);
   ASSUME(depth <= 3 || depth >= 127);
   dr = {(unsigned)depth, 0, 0, true};
   abi_type type("t", abi_type::builtin{}, &cser);
   char byte = 0;
   input_stream bin{&byte, 1};
   std::string dest = "old";
   CATCHING(thrown, abieos::bin_to_json(bin, &type, dest, [] { ++dr.ticks; }));
   COVER("done");
   ASSERT(thrown == (depth > 128), "fails exactly when nested deeper than 128");
   ASSERT(dr.order, "the first call starts the type, then the top entry is continued");
   if (thrown) return;
   ASSERT(dr.calls == 2 * depth && dr.ticks == 2 * depth - 1, "until nothing is left, with the callback before each step");
   ASSERT(dest.size() == 2 * depth, "the text is all that was written");
   for (size_t i = 0; i < 2 * depth; ++i) ASSERT(dest[i] == (i < depth ? '(' : ')'), "in order");
}
