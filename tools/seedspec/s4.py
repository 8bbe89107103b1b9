I='include/eosio/'
def H(*hs): return ''.join('#include <eosio/%s>\n'%h for h in hs)+'#include <cstdio>\n#include <cstring>\n#include <string>\n#include <limits>\nusing namespace eosio;\n'
T='template <typename F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }\n'
ABI='src/abi.cpp src/crypto.cpp -x c++ include/eosio/fpconv.c'
A='#include <eosio/abi.hpp>\n#include <cstdio>\n#include <cstring>\nusing namespace eosio;\n'+T+'''using V = std::vector<char>;
static abi make(std::vector<struct_def> s, std::vector<variant_def> v = {}) { static abi_def d; d.structs = s; d.variants.value = v; abi c; convert(d, c); return c; }
static V j2b(abi& c, const char* t, std::string j) { return c.get_type(t)->json_to_bin(j, []{}); }
static V r2b(abi& c, const char* t, std::string j) { return c.get_type(t)->json_to_bin_reorderable(j, []{}); }
static std::string b2j(abi& c, const char* t, V b) { input_stream in(b); return c.get_type(t)->bin_to_json(in, []{}); }
'''
# ---- C20
seed('c20-inner-extension','C20',[('src/abieos.hpp',"bin_to_json(state, allow_extensions && &field == &fields.back(), field.type, true);","bin_to_json(state, allow_extensions && &field != &fields.front(), field.type, true);")],
 A+'''int main(){ auto c = make({{"in","",{{"x","uint8"},{"y","uint8$"}}},{"out","",{{"p","uint8"},{"a","in"},{"b","uint8$"}}}}); return throws([&]{ b2j(c,"out",V{1,2}); }) ? 0 : 1; }''',
 "data that ends inside a struct with extensions which is a middle member", "extensions are left out in the middle of a struct", src=ABI)
seed('c20-array-count','C20',[('src/abieos.hpp',"if (++stack_entry.position < (ptrdiff_t)stack_entry.array_size) {","if (++stack_entry.position < (ptrdiff_t)(stack_entry.array_size & 0xffff)) {")],
 A+'''int main(){ auto c = make({}); V b(65537 + 3, 1); b[0]=(char)0x81; b[1]=(char)0x80; b[2]=4; auto s = b2j(c,"uint8[]",b); return s.size() == 2*65537 + 1 ? 0 : 1; }''',
 "an array of more than 65535 elements", "only the count modulo 65536 elements are converted", src=ABI)
seed('c20-optional-extensions','C20',[('src/abieos.hpp',"        return bin_to_json(state, allow_extensions, type->optional_of(), true);","        return bin_to_json(state, true, type->optional_of(), true);")],
 A+'''int main(){ auto c = make({{"in","",{{"x","uint8"},{"y","uint8$"}}},{"out","",{{"a","in?"},{"b","uint8$"}}}}); return throws([&]{ b2j(c,"out",V{1,2}); }) ? 0 : 1; }''',
 "data that ends inside an optional struct with extensions which is not the last member", "extensions are left out where they may not be", src=ABI)
seed('c20-variant-index','C20',[('src/abieos.hpp',"        eosio::check(index < fields.size(), eosio::convert_stream_error(eosio::stream_error::bad_variant_index));","        eosio::check((uint8_t)index < fields.size(), eosio::convert_stream_error(eosio::stream_error::bad_variant_index));\n        index = (uint8_t)index;")],
 A+'''int main(){ auto c = make({}, {{"v",{"uint8","uint16"}}}); return throws([&]{ b2j(c,"v",V{(char)0x81,2,5,0}); }) ? 0 : 1; }''',
 "a variant index of 256 or more whose low byte is valid", "an alternative that does not exist is read as another one", src=ABI)
# ---- C21
seed('c21-nested-counts','C21',[('src/abieos.hpp',"state.size_insertions[stack_entry.size_insertion_index].size = stack_entry.position + 1;","state.size_insertions[std::min(stack_entry.size_insertion_index, state.stack.size())].size = stack_entry.position + 1;")],
 A+'''int main(){ auto c = make({{"e","",{}},{"s","",{{"a","uint8[]"},{"b","uint8[]"},{"c","uint8[]"},{"d","uint8[]"},{"f","uint8[]"}}}}); return j2b(c,"s","{\\"a\\":[],\\"b\\":[1],\\"c\\":[1,2],\\"d\\":[1],\\"f\\":[]}") == V{0,1,1,2,1,2,1,1,0} ? 0 : 1; }''',
 "more arrays in a document than levels of nesting", "the count of a later array is written for an earlier one", src=ABI)
seed('c21-after-left-out','C21',[('src/abieos.hpp',"    eosio::check(!state.skipped_extension,\n        eosio::convert_json_error(eosio::from_json_error::unexpected_field));\n    state.received_value","    eosio::check(!state.skipped_extension || field.type->extension_of(),\n        eosio::convert_json_error(eosio::from_json_error::unexpected_field));\n    state.received_value")],
 A+'''int main(){ auto c = make({{"s","",{{"a","uint8"},{"b","uint8$"},{"c","uint8$"}}}}); return throws([&]{ r2b(c,"s","{\\"a\\":1,\\"c\\":2}"); }) ? 0 : 1; }''',
 "an extension present after one that is left out, in any-order input", "the bytes of a later extension are written in place of an earlier one", src=ABI)
seed('c21-variant-three','C21',[('src/abieos.hpp',"eosio::check(stack_entry.position == 2,","eosio::check(stack_entry.position >= 1,")],
 A+'''int main(){ auto c = make({}, {{"v",{"uint8","uint16"}}}); return throws([&]{ j2b(c,"v","[\\"uint16\\"]"); }) ? 0 : 1; }''',
 "a variant document without a value", "only the index is written", src=ABI)
seed('c21-stop-at-extension','C21',[('src/abieos.hpp',"            if (!field.type->extension_of() || !allow_extensions) {","            if (!field.type->extension_of() || !(allow_extensions || stack_entry.allow_extensions || state.stack.size() > 2)) {")],
 A+'''int main(){ auto c = make({{"in","",{{"x","uint8"},{"y","uint8$"}}},{"out","",{{"a","in[]"}}}}); return throws([&]{ j2b(c,"out","{\\"a\\":[{\\"x\\":1}]}"); }) ? 0 : 1; }''',
 "a left-out extension in an array element inside a struct", "the element is accepted although its bytes are ambiguous", src=ABI)
seed('c21-repeated-key','C21',[('src/abieos.hpp',"        auto& x = std::get<jobject>(value.value)[stack_entry.key] = {};","        auto& x = std::get<jobject>(value.value)[stack_entry.key];\n        if (event == event_type::received_null)\n            return true;\n        x = {};")],
 A+'''int main(){ auto c = make({{"s","",{{"a","uint8?"}}}}); return r2b(c,"s","{\\"a\\":1,\\"a\\":null}") == V{0} ? 0 : 1; }''',
 "a repeated member whose last value is null", "the earlier value is used", src=ABI)
# ---- C14
K=H('crypto.hpp')+T+'#include <vector>\n'
seed('c14-checksum-zero','C14',[('src/crypto.cpp',"check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,","check(strncmp((const char*)ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,")],
 K+'''int main(){ // find a key whose checksum starts with a zero byte, damage the rest of the checksum
 for (int i = 0; i < 5000; ++i) { ecc_public_key k{}; k[0] = 2; k[5] = i; k[6] = i >> 8; std::string s = public_key_to_string(public_key(std::in_place_index<0>, k));
  auto b = from_base58(std::string_view(s).substr(7)); if (b[b.size() - 4]) continue; b[b.size() - 1] ^= 1; std::string t = "PUB_K1_" + to_base58(b.data(), b.size());
  return throws([&]{ public_key_from_string(t); }) ? 0 : 1; } return 0; }''',
 "a key whose checksum contains a zero byte, with damage after it", "a damaged text is accepted", src='src/crypto.cpp -x c++ include/eosio/fpconv.c')
seed('c14-high-digits','C14',[('src/crypto.cpp',"int carry = base58_map[static_cast<uint8_t>(src_digit)];","int carry = base58_map[static_cast<uint8_t>(src_digit) & 0x7f];")],
 K+'''int main(){ return throws([]{ from_base58("\\xb2"); }) ? 0 : 1; }''',
 "a byte of 0x80 or more in a base-58 text", "non-ASCII bytes are taken for digits", src='src/crypto.cpp -x c++ include/eosio/fpconv.c')
seed('c14-leading-zero','C14',[('src/crypto.cpp',"    for (auto byte : bin)\n        if (byte)\n            break;\n        else\n            result.push_back('1');","    for (std::size_t i = 0; i + 1 < bin.size() && !bin[i]; ++i)\n        result.push_back('1');")],
 K+'''int main(){ char z[2] = {}; return to_base58(z, 2) == "11" ? 0 : 1; }''',
 "bytes that are all zero", "the last zero byte is lost in the text", src='src/crypto.cpp -x c++ include/eosio/fpconv.c')
seed('c14-wa-suffix','C14',[('src/crypto.cpp','return string_to_key<signature>(s.substr(7), key_type::wa, "WA");','return string_to_key<signature>(s.substr(7), key_type::wa, s.substr(4, 1));')],
 K+'''int main(){ webauthn_signature w; w.compact_signature = {}; w.client_json = "{}"; std::string s = signature_to_string(signature(std::in_place_index<2>, w)); return throws([&]{ signature_from_string(s); }) ? 1 : 0; }''',
 "a WebAuthn signature read from text", "every such text is rejected", src='src/crypto.cpp -x c++ include/eosio/fpconv.c')
# ---- C15
R='#include <type_traits>\n#include <cassert>\n#include <cstdint>\n#include <eosio/abieos_ripemd160.hpp>\n#include <cstdio>\n#include <cstring>\n#include <string>\nusing namespace abieos_ripemd160;\nstatic std::string h(std::string m, size_t cut) { ripemd160_state s; ripemd160_init(&s); ripemd160_update(&s, m.data(), cut); ripemd160_update(&s, m.data()+cut, m.size()-cut); unsigned char d[20]; ripemd160_digest(&s, d); std::string r; char b[3]; for (auto c : d) { sprintf(b, "%02x", c); r += b; } return r; }\n'
seed('c15-padding-boundary','C15',[(I+'abieos_ripemd160.hpp',"    if (tmp.bufpos > 56) {","    if (tmp.bufpos > 57) {")],
 R+'''int main(){ return h("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", 3) == "12a053384a9c0c88e405a06c27dcf49ada62eb2b" ? 0 : 1; }''',
 "a message of 56 bytes modulo 64", "the padding byte is overwritten by the length")
seed('c15-high-length','C15',[(I+'abieos_ripemd160.hpp',"tmp.buf.w[15] = (uint32_t)((tmp.length >> 32) & 0xFFFFffffu);","tmp.buf.w[15] = 0;")],
 R+'''int main(){ ripemd160_state s, t; ripemd160_init(&s); ripemd160_init(&t); std::string m(1 << 20, 'x'); for (int i = 0; i < 512; ++i) ripemd160_update(&s, m.data(), m.size()); memcpy(t.h, s.h, 20); unsigned char d[20], e[20]; ripemd160_digest(&s, d); ripemd160_digest(&t, e); return memcmp(d, e, 20) ? 0 : 1; }''',
 "a message of 512 MiB or more", "the high word of the length is not hashed")
seed('c15-buffer-fill','C15',[(I+'abieos_ripemd160.hpp',"if ((unsigned int)length >= bytes_needed) {","if ((unsigned int)length > bytes_needed || self->bufpos == 0 && length == 64) {")],
 R+'''int main(){ std::string m(64, 'a'); return h(m, 10) == h(m, 64) ? 0 : 1; }''',
 "a message whose second part exactly fills the block", "the block is left full and the padding goes past it")
# ---- C11
seed('c11-century','C11',[(I+'chain_conversions.hpp',"      const auto doy = doe - (365 * yoe + yoe/4 - yoe/100);","      const auto doy = doe - (365 * yoe + yoe/4 - yoe/128);")],
 H('time.hpp','chain_conversions.hpp')+'''int main(){ return microseconds_to_str(4107542400000000ull) == "2100-03-01T00:00:00.000" ? 0 : 1; }''',
 "a date from March 2100 on", "dates in years after a century that is no leap year are a day off")
seed('c11-millis-day','C11',[(I+'chain_conversions.hpp',"   append_uint(ms / 60000 % 60, 2);","   append_uint((ms + (ms >= 86399500) * 500) / 60000 % 60, 2);")],
 H('time.hpp','chain_conversions.hpp')+'''int main(){ return microseconds_to_str(86399999999ull) == "1970-01-01T23:59:59.999" ? 0 : 1; }''',
 "a time in the last half second of a day", "the minute is written as 00")
seed('c11-slot-32','C11',[(I+'time.hpp',"int64_t msec = slot * (int64_t)block_interval_ms;","int64_t msec = (uint32_t)(slot * block_interval_ms);")],
 H('time.hpp')+'''int main(){ return block_timestamp(9000000).to_time_point().elapsed._count == (946684800000ll + 4500000000ll) * 1000 ? 0 : 1; }''',
 "a block slot above 8589934", "the time of the slot wraps around")
