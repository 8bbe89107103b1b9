CC='include/eosio/chain_conversions.hpp'
H='#include <eosio/%s>\n#include <cstdio>\n#include <string>\n#include <limits>\nusing namespace eosio;\n'
seed('c01-name13-shared-bit','C01',[(CC,"      if(x != (x & 0xf)) return","      if(x > 0x10) return")],
 H%'name.hpp'+'''int main(){ auto r=try_string_to_name_strict("aaaaaaaaaaaak"); return r ? 1 : 0; }''',
 "a 13-character name whose last letter is exactly 'k' (the first letter that does not fit in four bits)",
 "k as 13th character is accepted and its high bit spills into the 12th character, so two spellings collide")
seed('c01-last-dot-trim','C01',[(CC,"   const auto last = str.find_last_not_of('.');\n   return str.substr(0, last + 1);",
 "   auto last = str.find('.');\n   if (last == std::string::npos || str.find_first_not_of('.', last) != std::string::npos)\n      last = str.find_last_not_of('.') + 1;\n   return str.substr(0, last ? last : 13);")],
 H%'name.hpp'+'''int main(){ return name_to_string(0)=="" ? 0 : 1; }''',
 "the name whose value is 0 only", "the empty name prints as thirteen dots instead of the empty string")
seed('c02-suffix-13th','C02',[('include/eosio/name.hpp',"         } else { // if this character is not a dot\n            remaining_bits_after_last_actual_dot = tmp;\n         }\n      }\n\n      uint64_t thirteenth_character = value & 0x0Full;\n      if (thirteenth_character) {",
 "         } else { // if this character is not a dot\n            remaining_bits_after_last_actual_dot = tmp;\n         }\n      }\n\n      uint64_t thirteenth_character = value & 0x0Full;\n      if (thirteenth_character && tmp > 4) {")],
 H%'name.hpp'+'''int main(){ name n("abcdefghijk.a"); return n.suffix()==name("a") ? 0 : 1; }''',
 "a 13-character name whose 12th character is the last dot", "suffix() ignores a one-character suffix that sits in the 13th place")
seed('c02-prefix-last','C02',[('include/eosio/name.hpp',"for (int32_t offset = 0; offset <= 59;) {","for (int32_t offset = 0; offset < 59;) {")],
 H%'name.hpp'+'''int main(){ name n(".abc"); return n.prefix()==name("") ? 0 : 1; }''',
 "a name whose only dot before its suffix is its first character", "prefix() returns the whole name when the dot is the leading character")
seed('c08-code-8-letters','C08',[(CC,"      if (i >= 7)\n         return false;\n      result |=","      if (i > 7)\n         return false;\n      result |=")],
 H%'symbol.hpp'+'''int main(){ uint64_t r; std::string s="ABCDEFGH"; return string_to_symbol_code(r,s.data(),s.data()+8) ? 1 : 0; }''',
 "a symbol code of exactly eight letters", "eight-letter codes are accepted and their last letter is lost in the 56-bit field")
seed('c08-symbol-code-space','C08',[(CC,"   while (pos != end && *pos == ' ') ++pos;\n   result     = 0;\n   uint32_t i = 0;","   while (pos != end && *pos == ' ') ++pos;\n   uint32_t i = 0;"),
   (CC,"      result |= uint64_t(*pos++) << (8 * i++);","      result = (i ? result : 0) | uint64_t(*pos++) << (8 * i), ++i;"),(CC,"   return i && (pos == end || !require_end);","   return (i || !require_end) && (pos == end || !require_end);")],
 H%'symbol.hpp'+'''int main(){ uint64_t r=5; std::string s="4,"; const char*p=s.data(); return string_to_symbol(r,p,s.data()+2,false) ? 1 : 0; }''',
 "a symbol text with no letters after the comma, parsed with require_end=false", "an empty symbol code is accepted and the result is whatever was in the output variable")
seed('c09-precision-loop','C09',[(CC,"   uint8_t precision = symbol;\n   if (precision) {\n      while (precision--) {","   int8_t precision = symbol;\n   if (precision) {\n      while (precision-- > 0) {")],
 H%'asset.hpp'+'''int main(){ std::string s=asset_to_string(1, 'A'*256ull+200); return s.size()==204 ? 0 : 1; }''',
 "a symbol precision above 127", "the precision is read as signed, so fraction digits disappear")
seed('c09-negative-zero-int','C09',[(CC,"   if (amount < 0)\n      result += '-';\n   std::reverse","   if (amount < 0 && result.back() != '0')\n      result += '-';\n   std::reverse")],
 H%'asset.hpp'+'''int main(){ return asset_to_string(-5, 'A'*256ull+2)=="-0.05 A" ? 0 : 1; }''',
 "a negative amount smaller in magnitude than one whole unit", "the minus sign is lost")
seed('c10-mul-underflow','C10',[('include/eosio/asset.hpp','      eosio::check(tmp >= -max_amount, "multiplication underflow");\n      amount = (int64_t)tmp;','      eosio::check((int64_t)tmp >= -max_amount, "multiplication underflow");\n      amount = (int64_t)tmp;')],
 H%'asset.hpp'+'''int main(){ asset a; a.symbol=symbol("AAA",0); a.amount=asset::max_amount; try { a *= -16; } catch(...) { return 0; } return 1; }''',
 "a product below -2^63 whose low 64 bits land in range", "a multiplication underflow is not detected and the amount wraps")

seed('c03-varuint32-sixth','C03',[('include/eosio/from_bin.hpp',"check( shift < 35, convert","check( shift <= 35, convert")],
 H%'from_bin.hpp'+'''int main(){ const char b[]={(char)0x81,(char)0x80,(char)0x80,(char)0x80,(char)0x80,0}; input_stream s(b,6); uint32_t v; try { varuint32_from_bin(v,s); } catch(...) { return 0; } return 1; }''',
 "an encoding of exactly six bytes", "a six byte varuint32 is accepted (and shifts by 35, undefined) instead of being rejected")
seed('c03-varint-sign','C03',[('include/eosio/from_bin.hpp',"result = ((~v) >> 1) | 0x8000'0000;","result = -int32_t((v >> 1) + 1) | 1;")],
 H%'varint.hpp'+'''int main(){ const char b[]={3}; input_stream s(b,1); int32_t v; varint32_from_bin(v,s); return v==-2 ? 0 : 1; }''',
 "an even negative number", "even negative varint32 values decode to the next odd number")
seed('c10-extended-contract','C10',[('include/eosio/asset.hpp','   friend extended_asset& operator-=(extended_asset& a, const extended_asset& b) {\n      eosio::check(a.contract == b.contract, "type mismatch");\n      a.quantity -= b.quantity;','   friend extended_asset& operator-=(extended_asset& a, const extended_asset& b) {\n      a.quantity -= b.quantity;\n      eosio::check(a.contract == b.contract || !a.quantity.amount, "type mismatch");')],
 H%'asset.hpp'+'''int main(){ extended_asset a(5,extended_symbol(symbol("AAA",0),name("x"))), b(5,extended_symbol(symbol("AAA",0),name("y"))); try { a-=b; } catch(...) { return 0; } return 1; }''',
 "two extended assets of different contracts with equal amounts", "assets of two different token contracts are subtracted when the result is zero")
