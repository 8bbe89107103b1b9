I='include/eosio/'
def H(*hs): return ''.join('#include <eosio/%s>\n'%h for h in hs)+'#include <cstdio>\n#include <cstring>\n#include <string>\n#include <limits>\nusing namespace eosio;\n'
seed('c04-variant-index-byte','C04',[(I+'from_bin.hpp',"      if (i == I) {\n         auto& x","      if (static_cast<uint8_t>(i) == I) {\n         auto& x")],
 H('from_bin.hpp')+'''int main(){ const char b[]={(char)0x80,2,7}; input_stream s(b,3); std::variant<uint8_t,uint16_t> v; try { from_bin(v,s); } catch(...) { return 0; } return 1; }''',
 "a variant index that is a multiple of 256 plus a valid index", "an out-of-range variant index (256) is accepted as alternative 0")
seed('c04-c-array-count','C04',[(I+'from_bin.hpp',"check( size == N, convert_stream_error(stream_error::array_size_mismatch) );","check( static_cast<uint16_t>(size) == N, convert_stream_error(stream_error::array_size_mismatch) );"),
  (I+'from_bin.hpp',"      stream.read(reinterpret_cast<char*>(v), size * sizeof(T));\n   } else {\n      for (size_t i = 0; i < size; ++i) {\n         from_bin(v[i], stream);","      stream.read(reinterpret_cast<char*>(v), N * sizeof(T));\n   } else {\n      for (size_t i = 0; i < N; ++i) {\n         from_bin(v[i], stream);")],
 H('from_bin.hpp')+'''int main(){ const char b[]={(char)0x82,(char)0x80,4,1,2}; input_stream s(b,5); uint8_t v[2]; try { from_bin(v,s); } catch(...) { return 0; } return 1; }''',
 "an array count equal to the right one modulo 65536", "a C array whose count prefix is wrong by 65536 is accepted")
seed('c04-skip-signed','C04',[(I+'stream.hpp',"   void skip(size_t size) {\n      check( size <= size_t(end-pos), convert","   void skip(size_t size) {\n      check( int32_t(size) <= end-pos, convert")],
 H('from_bin.hpp')+'''int main(){ const char b[]={(char)0xff,(char)0xff,(char)0xff,(char)0xff,0x0f,1,2}; input_stream s(b,7); std::string_view v; try { from_bin(v,s); } catch(...) { return 0; } return 1; }''',
 "a string_view length of 2^31 or more", "a string_view far longer than the input is returned (and the position leaves the buffer)")
seed('c05-optional-stale','C05',[(I+'from_bin.hpp',"   if (!present) {\n      obj.reset();\n      return;","   if (!present) {\n      return;")],
 H('from_bin.hpp','to_bin.hpp')+'''int main(){ std::optional<uint32_t> v(5); auto b=convert_to_bin(std::optional<uint32_t>{}); convert_from_bin(v,b); return v ? 1 : 0; }''',
 "decoding an absent optional into an object that already holds a value", "the stale value survives the decoding of an absent optional")
seed('c05-string-prefix-16','C05',[(I+'to_bin.hpp',"   varuint32_to_bin(sv.size(), stream);","   varuint32_to_bin(sv.size() > 0x1fffff ? sv.size() & 0x1fffff : sv.size(), stream);")],
 H('from_bin.hpp','to_bin.hpp')+'''int main(){ std::string a(0x200001,'x'); auto b=convert_to_bin(a); std::string c; convert_from_bin(c,b); return a==c ? 0 : 1; }''',
 "a string whose length needs a four-byte prefix", "the length prefix of strings of 2 MiB and more is wrong")
seed('c05-array-elem-count','C05',[(I+'from_bin.hpp',"      for (size_t i = 0; i < size; ++i) {\n         from_bin(v[i], stream);\n      }\n   }\n}\n\ntemplate <typename T, typename S>\nvoid from_bin(std::set","      for (size_t i = size; i-- > 0;) {\n         from_bin(v[size - 1 - (size > 2 && i < 2 ? 1 - i : i)], stream);\n      }\n   }\n}\n\ntemplate <typename T, typename S>\nvoid from_bin(std::set")],
 H('from_bin.hpp','to_bin.hpp')+'''int main(){ std::vector<std::string> a{"p","q","r"}, c; auto b=convert_to_bin(a); convert_from_bin(c,b); return a==c ? 0 : 1; }''',
 "a vector of at least three non-scalar elements", "the last two elements come back swapped")
seed('c06-size-stream-16','C06',[(I+'stream.hpp',"   void write(const void* src, std::size_t sz) {\n      size += sz;","   void write(const void* src, std::size_t sz) {\n      size += sz ? static_cast<uint16_t>(sz - 1) + 1 : 0;")],
 H('from_bin.hpp','to_bin.hpp')+'''int main(){ std::string s(70000,'x'); size_stream a; to_bin(s,a); return a.size==70003 ? 0 : 1; }''',
 "one write of more than 65536 bytes", "the size pass underestimates long strings")
seed('c06-fixed-exact','C06',[(I+'stream.hpp',"   void write(char c) {\n      check( pos < end, convert","   void write(char c) {\n      check( pos < end || !c, convert")],
 H('from_bin.hpp','to_bin.hpp')+'''int main(){ char b[2]={5,6}; fixed_buf_stream s(b,1); try { s.write(char(1)); s.write(char(0)); } catch(...) { return b[1]==6 ? 0 : 1; } return 1; }''',
 "a zero byte written to a full fixed buffer (an absent optional at the very end, say)", "a zero byte is written one past the end of the buffer")
seed('c07-string-trailing-nul','C07',[(I+'to_key.hpp',"   for (char ch : obj) {\n      stream.write(ch);\n      if (ch == '\\0') {\n         stream.write('\\1');\n      }\n   }","   for (const char& ch : obj) {\n      stream.write(ch);\n      if (ch == '\\0' && &ch != &obj.front()) {\n         stream.write('\\1');\n      }\n   }")],
 H('to_key.hpp')+'''int main(){ std::string a("\\0",1), b("\\0\\0",2), c(""); return convert_to_key(std::make_tuple(c,b)) < convert_to_key(std::make_tuple(a,c)) ? 0 : 1; }''',
 "a string that starts with a NUL character", "the leading NUL is not escaped, so a following field can change the order")
seed('c07-negative-zero','C07',[(I+'to_key.hpp',"   if (result == signbit)\n      result = 0;","   if (value == 0 && !(result & signbit))\n      result = 0;")],
 H('to_key.hpp')+'''int main(){ return convert_to_key(0.0)==convert_to_key(-0.0) ? 0 : 1; }''',
 "negative zero", "+0 and -0 get different keys")
seed('c07-varuint-edge','C07',[(I+'to_key.hpp',"   } else if (obj < 0x4000u) {\n      num_bytes = 2;","   } else if (obj <= 0x4000u) {\n      num_bytes = 2;")],
 H('to_key.hpp','varint.hpp')+'''int main(){ auto f=[](uint32_t v){ std::vector<char> b; vector_stream s(b); to_key_varuint32(v,s); return std::string(b.begin(),b.end()); }; std::string a=f(0x4000),b=f(0x3fff); return memcmp(b.data(),a.data(),std::min(a.size(),b.size()))<0 ? (a.size()==3 ? 0 : 1) : 1; }''',
 "the value 0x4000 exactly", "0x4000 gets a two-byte key whose marker bits are spoiled, colliding with another width")
seed('c18-padding-read','C18',[(I+'fixed_bytes.hpp',"std::size_t                     count = std::min(static_cast<std::size_t>(end - u), tmp.size());","std::size_t                     count = std::min(static_cast<std::size_t>(end - u), Size / sizeof(U) + (Size / sizeof(U) == 0));")],
 H('fixed_bytes.hpp')+'''int main(){ std::array<uint64_t,3> a{1,2,0xaabbccdd00000000ull}; fixed_bytes<20,uint32_t> f(a); auto b=f.extract_as_byte_array(); return b[16]==0xaa ? 0 : 1; }''',
 "a size that is not a multiple of the source word, built from an array of words", "the last partial word is dropped and its bytes read back as zero")
seed('c23-compare-diff','C23',[(I+'operators.hpp',"         if (lhs < rhs)\n            return -1;\n","         if constexpr (std::is_arithmetic_v<T> && sizeof(T) == 8 && std::is_same_v<T, U>)\n            return (lhs - rhs) > 0 ? 1 : (lhs - rhs) < 0 ? -1 : 0;\n         if (lhs < rhs)\n            return -1;\n")],
 H('symbol.hpp','reflection.hpp','operators.hpp')+'''namespace q { struct s { uint64_t a; int b; }; EOSIO_REFLECT(s,a,b); EOSIO_COMPARE(s); } int main(){ q::s a{1,0},b{2,0}; return a<b && !(b<a) ? 0 : 1; }''',
 "a 64-bit unsigned field that decides the comparison", "64-bit unsigned fields never compare less")
seed('c23-eq-last-field','C23',[(I+'operators.hpp',"         if (!result) {\n            using internal","         if (result <= 0) {\n            using internal")],
 H('symbol.hpp','reflection.hpp','operators.hpp')+'''namespace q { struct s { int a; int b; }; EOSIO_REFLECT(s,a,b); EOSIO_COMPARE(s); } int main(){ q::s a{1,5},b{2,3}; return a<b ? 0 : 1; }''',
 "two fields that differ in opposite directions, the first being less", "a later field overrides an earlier difference")
seed('c25-convert-optional','C25',[(I+'convert.hpp',"      dst.emplace();\n      convert(*src, *dst, chooser);","      if (!dst)\n         dst.emplace();\n      convert(*src, *dst, chooser);\n   } else if (dst && sizeof(U) > sizeof(T)) {\n      *dst = U{};")],
 H('convert.hpp','reflection.hpp')+'''namespace q { struct a { uint16_t x=0; }; struct b { uint16_t x=0; uint64_t y=0; }; EOSIO_REFLECT(a,x); EOSIO_REFLECT(b,x,y); widening_conversion conversion_kind(a,b); }
int main(){ std::optional<q::a> s; std::optional<q::b> d(q::b{}); convert(s,d,choose_first); return d ? 1 : 0; }''',
 "an absent optional converted onto a present one of a larger type", "the target optional stays present")
seed('c25-opaque-size','C25',[(I+'opaque.hpp',"      uint32_t num;\n      varuint32_from_bin(num, this->bin);\n      return num;","      uint32_t num;\n      varuint32_from_bin(num, this->bin);\n      return std::min<size_t>(num, this->bin.remaining());")],
 H('to_bin.hpp','opaque.hpp','reflection.hpp')+'''namespace q { struct e {}; EOSIO_REFLECT(e); } int main(){ std::vector<char> b{3}; std::vector<char> c; vector_stream s(c); to_bin(b,s); input_stream i(c); opaque<std::vector<q::e>> o(i); return o.unpack_size()==3 ? 0 : 1; }''',
 "a list whose elements encode to fewer bytes than their number (empty structs)", "the reported element count is clipped to the byte count")

J='#include <rapidjson/document.h>\n'
seed('c16-last-digit','C16',[(I+'from_json.hpp',"check(!(!std::is_signed_v<T> && (limit - digit) / 10 < result),","check(!(!std::is_signed_v<T> && limit / 10 < result),")],
 H('from_json.hpp')+'''int main(){ std::string t="256"; json_token_stream s(t.data()); uint8_t v; try { from_json(v,s); } catch(...) { return 0; } return 1; }''',
 "a number that exceeds the type's maximum only by its last digit", "unsigned numbers just above the maximum wrap to small values")
