I='include/eosio/'
def H(*hs): return ''.join('#include <eosio/%s>\n'%h for h in hs)+'#include <cstdio>\n#include <cstring>\n#include <string>\n#include <limits>\nusing namespace eosio;\n'
T='''template <typename F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
template <typename T> T rd(std::string s, T v = {}) { json_token_stream j(s.data()); from_json(v, j); j.get_end(); return v; }
'''
seed('c12-high-bit-digit','C12',[(I+'from_json.hpp',"      else if (*begin >= 'A' && *begin <= 'F')\n         nibble = *begin++ - 'A' + 10;","      else if ((*begin & 0x5f) >= 'A' && (*begin & 0x5f) <= 'F')\n         nibble = (*begin++ & 0x5f) - 'A' + 10;")],
 H('from_json.hpp','bytes.hpp')+T+r'''int main(){ std::string s("\xc1""0"), o; return unhex(std::back_inserter(o), s.begin(), s.end()) ? 1 : 0; }''',
 "a byte of 0xc1 to 0xc6 or 0xe1 to 0xe6 in a hex text", "non-ASCII bytes are taken for the digits a to f")
seed('c12-digest-longer','C12',[(I+'fixed_bytes.hpp',"check(v.size() == Size, convert","check(v.size() / sizeof(T) == Size / sizeof(T), convert")],
 H('from_json.hpp','fixed_bytes.hpp')+T+'''int main(){ return throws([]{ rd<checksum256>('"' + std::string(66,'a') + '"'); }) ? 0 : 1; }''',
 "a digest text that is a few bytes too long", "a digest text with up to 15 extra bytes is accepted and cut")
seed('c12-old-bytes','C12',[(I+'from_json.hpp',"   result.clear();\n   result.reserve(s.size() / 2);","   if (!s.empty())\n      result.clear();\n   result.reserve(s.size() / 2);")],
 H('from_json.hpp','bytes.hpp')+T+'''int main(){ bytes b; b.data={1,2}; return rd<bytes>("\\"\\"", b).data.empty() ? 0 : 1; }''',
 "the empty text read into a byte string that already has contents", "the old bytes stay")
seed('c17-del-unescaped','C17',[(I+'to_json.hpp',"(unsigned char)(*pos) >= 32 && *pos != 127) ++pos;","(unsigned char)(*pos) >= 32 && (*pos != 127 || pos != begin)) ++pos;")],
 H('to_json.hpp')+r'''int main(){ return convert_to_json(std::string("a\x7f")) == "\"a\\u007F\"" ? 0 : 1; }''',
 "a DEL character that is not the first of its run", "DEL is written raw inside the JSON string")
seed('c17-invalid-skips','C17',[(I+'to_json.hpp',"            ++begin;\n            stream.write('?');","            begin += std::min<std::ptrdiff_t>(s2.idx, pos - begin);\n            stream.write('?');")],
 H('to_json.hpp')+r'''int main(){ return convert_to_json(std::string("\xe2\x82""bc")) == "\"??bc\"" ? 0 : 1; }''',
 "a truncated multi-byte sequence followed by plain text", "the valid characters after the broken sequence are lost")
seed('c17-four-byte-utf8','C17',[(I+'to_json.hpp',"std::size_t chars = std::min<std::size_t>(sz, 4);","std::size_t chars = std::min<std::size_t>(sz, sz < 5 ? 4 : 3);")],
 H('to_json.hpp')+r'''int main(){ std::string s("\xf0\x9f\x98\x80"); return convert_to_json(s + "x") == "\"" + s + "x\"" ? 0 : 1; }''',
 "a four-byte character followed by more text", "the character is replaced by question marks")
seed('c17-absent-optional','C17',[(I+'to_json.hpp',"         if( !!m || true )\n            addfield();","         if( !!m || first )\n            addfield();")],
 H('to_json.hpp','reflection.hpp')+'''namespace q { struct a { int x=1; std::optional<int> y; }; EOSIO_REFLECT(a,x,y); } int main(){ return convert_to_json(q::a{}) == "{\\"x\\":1,\\"y\\":null}" ? 0 : 1; }''',
 "an empty optional member after the first member", "the member is missing from the text")
seed('c26-skip-depth','C26',[(I+'from_json.hpp',"   uint64_t depth = 0;\n   do {\n      auto t = stream.peek_token();","   uint8_t depth = 0;\n   do {\n      auto t = stream.peek_token();")],
 H('from_json.hpp','reflection.hpp')+T+'''namespace q { struct a { bool x=false; }; EOSIO_REFLECT(a,x); } int main(){ std::string d(256,'['), e(256,']'); return throws([&]{ rd<q::a>("{\\"u\\":"+d+e+",\\"x\\":true}"); }) ? 1 : 0; }''',
 "an unknown member whose value nests 256 levels deep", "the skipping stops inside the value and the document is rejected")
seed('c26-variant-prefix','C26',[(I+'from_json.hpp',"std::find(type_names, type_names + sizeof...(T), type) - type_names;","std::find_if(type_names, type_names + sizeof...(T), [&](const char* n) { return !type.compare(0, type.size(), n, type.size()); }) - type_names;")],
 H('from_json.hpp')+T+'''namespace q { struct lit { bool b; }; const char* get_type_name(lit*) { return "literal"; } template <typename S> void from_json(lit& l, S& s) { l.b = s.get_bool(); } }
int main(){ return throws([]{ rd<std::variant<q::lit>>("[\\"lit\\",true]"); }) ? 0 : 1; }''',
 "a variant type name that is a proper prefix of a known one", "the abbreviated type name is accepted")
seed('c26-trailing','C26',[(I+'from_json.hpp',"check( current_token.type == json_token_type::type_unread && complete(),","check( current_token.type == json_token_type::type_unread || complete(),")],
 H('from_json.hpp')+T+'''int main(){ return throws([]{ std::string s("[1] [2]"); json_token_stream j(s.data()); j.get_start_array(); j.get_string(); j.get_end(); }) ? 0 : 1; }''',
 "a document with tokens left over", "the end is accepted before the document is complete")
seed('c26-stale-optional','C26',[(I+'from_json.hpp',"      result.emplace();\n      from_json(*result, stream);","      if (!result)\n         result.emplace();\n      from_json(*result, stream);")],
 H('from_json.hpp','reflection.hpp')+T+'''namespace q { struct a { bool x=false; bool y=false; }; EOSIO_REFLECT(a,x,y); } int main(){ std::optional<q::a> o(q::a{true,true}); o = rd("{\\"x\\":true}", o); return o->y ? 1 : 0; }''',
 "an object with an absent member read into an optional that already holds a value", "the old member survives")
