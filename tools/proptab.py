prop('C01', 'Account names: text and 64-bit value correspond exactly',
     'Strict conversion of text to a name value accepts exactly the texts of at most 13 characters over ".12345a-z" whose 13th character, if present, is one of ".1-5a-j", rejects every other text with an error, and gives the documented base-32 value. Converting a value to text gives the unique canonical text (no trailing dots) and converting that text back gives the same value. The lenient conversion agrees with the strict one on every text the strict one accepts.',
     ['inputs'], 'all 2^64 name values; all texts of any length and content',
     'The tests sample a few dozen names; acceptance and injectivity are statements about 2^64 values and all texts, including embedded NULs, over-long texts and 13th-character limits.',
     [I + 'chain_conversions.hpp', I + 'name.hpp'],
     [('strict digit table and 13th-character check', I + 'chain_conversions.hpp: try_string_to_name_strict, char_to_name_digit_strict'),
      ('value to text with trailing dots removed', I + 'chain_conversions.hpp: name_to_string'), ('name class', I + 'name.hpp: name(std::string_view), name::to_string')])
prop('C02', 'Account names: length, prefix, suffix and order agree with the text',
     'For every name value, the reported length is the number of characters of its canonical text, the suffix is the text after the last dot and the prefix the text before it (or the whole name when there is no dot). Names are ordered and compared exactly as their 64-bit values.',
     ['inputs'], 'all 2^64 name values (pairs of values for the order)',
     'The tests never call prefix, suffix or length on more than a few values; dots in positions 1..13 and the 4-bit last character give special cases no sample covers.',
     [I + 'name.hpp'], [('bit scanning of 5-bit groups', I + 'name.hpp: length, suffix, prefix'), ('comparison by value', I + 'operators.hpp: EOSIO_COMPARE')])
prop('C03', 'Variable-length integers: encode and decode are exact inverses',
     'Encoding a 32-bit unsigned, 32-bit signed (zig-zag) or 64-bit length value as a variable-length integer produces the minimal little-endian base-128 form, and decoding it returns the value and consumes exactly those bytes. Decoding any byte sequence either returns the base-128 number its bytes spell (its low 32 or 64 bits), consuming exactly the bytes up to and including the first one without a continuation bit, or reports an error, which happens exactly when there is no such byte within the first 5 (10 for 64 bits) bytes of the input; it never reads beyond the input.',
     ['inputs'], 'all 32-bit and 64-bit values; all byte sequences',
     'The tests use a few boundary values; overlong encodings, truncated input and high bits of the last byte are only reachable by choosing arbitrary byte sequences.',
     [I + 'varint.hpp', I + 'from_bin.hpp', I + 'to_bin.hpp'],
     [('5-byte limit and last-byte mask', I + 'from_bin.hpp: varuint32_from_bin, varuint64_from_bin'), ('zig-zag', I + 'from_bin.hpp: varint32_from_bin'), ('encoder', I + 'to_bin.hpp: varuint32_to_bin, push_varuint32')])
prop('C08', 'Symbols and symbol codes: validity, text form and order',
     'A symbol code is valid exactly when it is 1 to 7 letters A-Z packed from the low byte with zero bytes above, and a symbol is valid exactly when its code is. Parsing accepts exactly the texts of that form (symbols: a decimal precision 0..255, a comma, then a code) and yields the packed value; the text of every valid value parses back to the same value. Comparison follows the raw value, and extended symbols compare lexicographically.',
     ['inputs'], 'all 64-bit raw values; all texts of any length',
     'Tests try a handful of texts and no invalid raw values (8-letter codes, embedded zero bytes, precision above 255).',
     [I + 'symbol.hpp', I + 'chain_conversions.hpp'],
     [('letter loop', I + 'symbol.hpp: symbol_code(std::string_view), is_valid'), ('parsers', I + 'chain_conversions.hpp: string_to_symbol_code, string_to_symbol'), ('printers', I + 'chain_conversions.hpp: symbol_code_to_string, symbol_to_string')])
prop('C09', 'Asset text form: exact parsing and a faithful round trip',
     'Parsing an asset text accepts exactly the texts of the form: spaces, an optional minus sign, decimal digits, optionally a point and more digits (at most 255 of them), spaces, then a symbol code of 1 to 7 letters, whose digits (with the point removed) form a number representable as a signed 64-bit amount; the result is that amount, with the number of digits after the point as the precision of the symbol. Texts whose number does not fit are rejected, never wrapped. The text of any amount (the most negative one included) with any precision and valid symbol code parses back to the same amount and symbol.',
     ['inputs'], 'all texts of any length and content; all 2^64 amounts with all 256 precisions',
     'Tests try a few dozen texts; overflow of the amount, precision wrap-around at 256 digits and INT64_MIN are out of their reach.',
     [I + 'chain_conversions.hpp', I + 'asset.hpp'],
     [('digit loops with overflow checks', I + 'chain_conversions.hpp: string_to_asset'), ('digits produced backwards', I + 'chain_conversions.hpp: asset_to_string')])
prop('C10', 'Asset arithmetic is exact or rejected',
     'Addition, subtraction, negation, multiplication and division of assets (and extended assets) whose amounts are within +-(2^62-1) yield the exact mathematical result, or raise an error exactly when the operands have different symbols (or contracts), the result is outside +-(2^62-1), or the divisor is zero. Comparisons agree with the amounts and raise an error exactly for different symbols. Construction accepts exactly an in-range amount with a valid symbol.',
     ['inputs'], 'all operand amounts, multipliers, symbols and contracts',
     'No test performs asset arithmetic; overflow limits and symbol mismatches need boundary operands.',
     [I + 'asset.hpp'], [('checks after each operation', I + 'asset.hpp: operator+=, operator-=, operator*=, operator/='), ('128-bit product', I + 'asset.hpp: operator*=')])
prop('C16', 'JSON integers: exact parsing, exact range, faithful round trip',
     'Reading a JSON number token of any length into an 8- to 128-bit signed or unsigned integer accepts exactly the texts made of an optional minus sign (signed types only) and one or more decimal digits whose value fits the type, and yields that value; every other text is rejected. Writing any value produces its shortest decimal text (in quotes for types wider than 32 bits), and that text reads back as the same value.',
     ['inputs'], 'all texts of any length; all values of every 8- to 128-bit integer type',
     'Tests use a few boundary values of a few types; wrap-around and off-by-one limits differ per type and digit count.',
     [I + 'from_json.hpp', I + 'to_json.hpp'],
     [('overflow test before each digit', I + 'from_json.hpp: from_json_int'), ('digits produced backwards', I + 'to_json.hpp: int_to_json')])
prop('C18', 'Fixed-size digests: byte layout, comparison and codec agree',
     'A fixed-size byte string (checksum160/256/512 and other sizes) holds its bytes in big-endian word order: building it from bytes, extracting bytes, binary encoding and binary decoding are mutually inverse and touch exactly its size in bytes (never padding); equality and ordering are those of the byte sequences compared as unsigned values from the first byte; decoding shorter input fails with an error and reads nothing beyond it.',
     ['inputs'], 'all byte contents for sizes 20, 32, 64 and an odd size; all input lengths',
     'Tests check one or two digests through one path; word order, sizes that are not a multiple of the word size and first-difference ordering need arbitrary contents.',
     [I + 'fixed_bytes.hpp'],
     [('word packing', I + 'fixed_bytes.hpp: set_from_byte_array, extract_as_byte_array'), ('comparison', I + 'fixed_bytes.hpp: operators'), ('codec', I + 'fixed_bytes.hpp: from_bin, to_bin')])
prop('C04', 'Binary decoding stays in bounds and fails only with an error',
     'Decoding any byte sequence into any supported type (integers, bools, enums, varints, strings, string views, byte vectors, vectors, sets, maps, lists, deques, optionals, variants, pairs, tuples, arrays, reflected structs, opaque values, names, symbols, assets, times, keys, signatures) reads only inside the given input. On success the stream position advances by exactly the length of the encoding consumed; when the input is too short, a declared length exceeds what remains, a variant index is out of range or a C-array count is wrong, decoding reports an error instead of returning a value.',
     ['inputs'], 'all byte sequences of any length, for each supported type constructor',
     'Tests decode well-formed blobs; a truncated or hostile length prefix at every position is an unbounded family of inputs, and an over-read is invisible without a sanitizer.',
     [I + 'from_bin.hpp', I + 'stream.hpp', I + 'varint.hpp', I + 'opaque.hpp'],
     [('remaining-bytes check', I + 'stream.hpp: input_stream::check_available, read, read_reuse_storage, skip'),
      ('length prefix then payload', I + 'from_bin.hpp: from_bin for string, vector, string_view, input_stream'),
      ('variant index', I + 'from_bin.hpp: variant_from_bin')],
     note='Vectors of strings and of structs, lists and deques are bounded to 3 elements, sets and maps to 2, WebAuthn texts to 2 characters (labelled bounded, not counted as proved); byte, 16-bit and 64-bit vectors, strings and all other types are proved for every length. ')
prop('C05', 'Binary codec: decoding an encoded value gives the value back',
     'For every supported type, encoding a value to binary and decoding the bytes yields an equal value and consumes exactly the bytes produced, also when other data follows; decoding into an object that already holds a value replaces it completely. The bytes are the documented EOSIO encoding: little-endian scalars, varuint length prefixes and variant indices, one flag byte for optionals and fields in declaration order.',
     ['inputs'], 'all values of each supported type constructor, with any following data',
     'Round trips in tests use single hand-written values; a codec pair that disagrees at one length-prefix boundary, optional state or field order passes them.',
     [I + 'from_bin.hpp', I + 'to_bin.hpp'],
     [('encoder', I + 'to_bin.hpp: to_bin overloads'), ('decoder', I + 'from_bin.hpp: from_bin overloads'), ('field order', I + 'reflection.hpp / for_each_field.hpp')],
     note='Vectors of strings and of structs, lists and deques are bounded to 3 elements, sets and maps to 2, WebAuthn texts to 2 characters (labelled bounded, not counted as proved). ')
prop('C06', 'Size, fixed-buffer and vector output streams agree on every encoding',
     'For every value, the size computed by the size stream equals the number of bytes the vector stream appends and the number the fixed-buffer stream writes, and both contain the same bytes. A fixed buffer that is too small is reported as an error and never written past its end; the vector stream only appends.',
     ['inputs'], 'all values of each supported type constructor, all buffer sizes',
     'The double-pass convert_to_bin relies on size and write agreeing for every value; one type whose size pass differs corrupts memory only for particular values.',
     [I + 'stream.hpp', I + 'to_bin.hpp'],
     [('three output streams', I + 'stream.hpp: size_stream, fixed_buf_stream, vector_stream'), ('two-pass conversion', I + 'to_bin.hpp: convert_to_bin')],
     note='Vectors of strings and of structs, lists and deques are bounded to 3 elements, sets and maps to 2, WebAuthn texts to 2 characters (labelled bounded, not counted as proved). ')
prop('C07', 'Binary key encoding preserves order and is injective',
     'For any two values of one key type (integers of every width, bool, enums, floating-point numbers other than NaN, strings, names, symbols, varuint32, and structs, pairs, tuples, arrays, optionals, variants, vectors, lists, deques, sets and maps of them), the keys produced by to_key compare bytewise (memcmp, then length) exactly as the values compare, and different values give different keys (+0 and -0 being equal values).',
     ['inputs'], 'all pairs of values of each key type',
     'The tests compare some sampled pairs; order preservation is a relation over all pairs, with sign bits, NUL characters inside strings, prefixes and -0 as special cases.',
     [I + 'to_key.hpp'],
     [('sign-bit flip and byte reversal', I + 'to_key.hpp: to_key for scalars'), ('NUL escaping of strings', I + 'to_key.hpp: to_key(std::string)'), ('optional/variant/vector prefixes', I + 'to_key.hpp: to_key_optional, to_key(std::variant)')],
     note='The string key is proved for every length (format of the stream, plus an order lemma on that format); sequences are bounded to 2 elements (labelled bounded). ')
prop('C23', 'Reflected comparison is the lexicographic order of the fields',
     'For every reflected type with the comparison operators, ==, !=, <, <=, > and >= all agree with the lexicographic comparison of the fields in declaration order: == holds exactly when every field is equal, < is decided by the first field that differs, and the six operators are mutually consistent.',
     ['inputs'], 'all pairs of values',
     'The tests compare a few values, mostly differing in one field; a field skipped or compared out of order only shows with particular combinations of fields.',
     [I + 'operators.hpp', I + 'for_each_field.hpp', I + 'reflection.hpp'],
     [('comparison macros', I + 'operators.hpp: EOSIO_COMPARE'), ('field iteration', I + 'reflection.hpp: for_each_field')])
prop('C25', 'Opaque blobs and by-name conversion preserve values',
     'An opaque value is encoded as the length-prefixed binary encoding of the value it wraps and unpacks to an equal value; unpacking a list element by element yields the elements in order and stops at the end; malformed or wrongly typed content is an error, never an over-read. Converting one reflected type to another copies every field of the same name (converting its type) and leaves the other fields of the target as they were.',
     ['inputs'], 'all wrapped values and byte contents; all field values',
     'The tests wrap one value; agreement of the lazy and the eager decoding is needed for all values and malformed blobs.',
     [I + 'opaque.hpp', I + 'convert.hpp'],
     [('lazy unpacking', I + 'opaque.hpp: opaque, opaque<std::vector>, as_opaque'), ('field matching by name', I + 'convert.hpp: convert')],
     note='Conversion of vectors is bounded to 2 elements (labelled bounded). ')
prop('C12', 'Hexadecimal text of byte strings and digests decodes strictly and round-trips',
     'The JSON text of a byte string or of a checksum (160, 256 or 512 bits) is exactly two upper-case hex digits per byte, high digit first, in byte order. Reading accepts exactly the strings of the right length made of hex digits of either case and yields those bytes, replacing the old value; any other string (odd length, other length for a digest, any non-hex character anywhere) is an error. Reading what was written gives back the value.',
     ['inputs'], 'all strings and all byte strings',
     'The tests read a few well-formed strings; a wrong digit class, a wrong character position or an unchecked odd length is a matter of one character in any position.',
     [I + 'from_json.hpp', I + 'to_json.hpp', I + 'bytes.hpp', I + 'fixed_bytes.hpp'],
     [('digit decoding', I + 'from_json.hpp: unhex, from_json_hex'), ('digit encoding', I + 'to_json.hpp: to_json_hex'), ('digests', I + 'fixed_bytes.hpp: from_json, to_json')],
     note='The hex codec itself is proved for every length (on a recording iterator and stream); bytes::from_json is in addition checked whole for texts of at most 9 characters and the bytes round trip for at most 4 bytes (labelled bounded). ')
prop('C17', 'JSON written for a value is exactly its well-formed text',
     'to_json of a string writes a quoted JSON string whose content is the characters of the string, quotes, backslashes and control characters escaped and invalid UTF-8 repaired, for any content and any length; of an object, {"member":value,...} with every reflected member once, in order, empty optionals shown as null and base members first; of a list, optional or variant, [..] with commas between elements only, null or the value, and ["type name",value]. The text convert_to_json returns is exactly the text the stream overload writes: the size pass and the write pass agree.',
     ['inputs'], 'all strings up to 2^36 bytes; all values; lists of any length',
     'The tests write a handful of strings and structs; a missing escape for one character, a wrong comma at one position or a run that crosses an internal limit only shows for particular content.',
     [I + 'to_json.hpp', I + 'stream.hpp'],
     [('string escaping', I + 'to_json.hpp: to_json(std::string_view)'), ('UTF-8 repair', I + 'to_json.hpp: stream_adaptor'), ('objects and containers', I + 'to_json.hpp: to_json'), ('two-pass conversion', I + 'to_json.hpp: convert_to_json')],
     note='Strings are proved for every content and length up to 2^36 bytes and the list template for any length; lists inside objects are bounded to 3 elements (labelled bounded). ')
prop('C26', 'Structured JSON is read exactly: members, lists, optionals, variants',
     'Reading a value from JSON tokens accepts exactly the token sequence of its type and consumes exactly those tokens. Object members may come in any order; unknown ones are skipped whole, whatever they contain; for a repeated one the last counts; absent ones are unchanged. A list holds exactly the elements of the text in order, null empties an optional, a variant is ["type name",value] with a known name; elements and contents are read into fresh values. Any other token sequence, or anything left after the value, is an error.',
     ['inputs', 'histories'], 'all token sequences; skipped values of any length and depth',
     'The tests read a few documents; skipping of nested unknown members, member order, repeated members and the state after an error depend on the token sequence.',
     [I + 'from_json.hpp', I + 'for_each_field.hpp'],
     [('token stream', I + 'from_json.hpp: json_token_stream'), ('skipping', I + 'from_json.hpp: from_json_skip_value'), ('objects', I + 'from_json.hpp: from_json_object, from_json'), ('containers', I + 'from_json.hpp: from_json(std::vector), from_json(std::optional), from_json(std::variant)')],
     note='Assumed: the rapidjson reader delivers the tokens of the document in order, one per call (a stand-in with that contract replaces it). Skipping is proved for any length and depth; lists and objects are bounded to 3 elements and members (labelled bounded). ')
prop('C11', 'Times: text, seconds and block slots denote the same instant',
     'For every time from 1970 to the year 9999, microseconds_to_str is YYYY-MM-DDThh:mm:ss.mmm of its Gregorian date and time of day, rounded down to the millisecond. Reading accepts exactly that format (a time_point with up to six decimals or none, a time_point_sec with any fraction, which is ignored); for a valid date and time of day the value is exactly that instant, or an error when the target cannot hold it. Conversion to whole seconds and to half-second block slots since 2000 rounds down and is exact backwards; comparisons agree with the instants; the last slot has no next one.',
     ['inputs'], 'all instants of the years 1970 to 9999 (reading: 0000 to 9999), all texts, all slots',
     'The tests convert a few instants near 1970; leap days, century years, month ends and the limits of 32-bit seconds are isolated inputs among billions.',
     [I + 'time.hpp', I + 'chain_conversions.hpp'],
     [('calendar', I + 'chain_conversions.hpp: year_month_day'), ('writing', I + 'chain_conversions.hpp: microseconds_to_str'), ('reading', I + 'chain_conversions.hpp: string_to_utc_seconds, string_to_utc_microseconds'), ('slots and seconds', I + 'time.hpp: block_timestamp, time_point_sec, time_point')],
     note='Texts whose month, day or time of day is out of range are accepted by the code with unspecified values; nothing is claimed for them. ')
prop('C15', 'RIPEMD-160 is the published function for every message',
     'The digest computed by ripemd160_init, any sequence of ripemd160_update calls and ripemd160_digest is the RIPEMD-160 digest of the concatenated bytes: each 64-byte block is hashed once, in order, with the published block function; the rest waits in the buffer; and the padding is the byte 0x80, zeros and the bit count. Taking a digest leaves the state unchanged.',
     ['inputs', 'histories'], 'all chaining values and blocks; all buffer states; all updates of up to 2^31-1 bytes',
     'No stable test hashes anything; messages that end near a block boundary or arrive in pieces across one take different paths.',
     [I + 'abieos_ripemd160.hpp'],
     [('block function', I + 'abieos_ripemd160.hpp: ripemd160_compress'), ('buffering', I + 'abieos_ripemd160.hpp: ripemd160_update'), ('padding', I + 'abieos_ripemd160.hpp: ripemd160_digest')],
     note='The contract of ripemd160_compress (proved of its body) replaces its body in the proofs of the two callers. ')
prop('C20', 'ABI: binary to JSON follows the type, step by step',
     'Converting binary data to JSON with an ABI type produces exactly the JSON of that type and consumes exactly its bytes: a struct gives an object with its members in order, commas only between them; an array reads its element count and gives exactly that many elements; a variant reads the alternative index, fails when there is none of that number, and gives ["name",value]; an optional reads a presence byte and gives null or the value; trailing extension members (in the last position, where extensions are allowed) may be missing exactly when the data ends there, and are then left out. Nesting deeper than 128 fails with an error instead of exhausting the stack. (For optionals whose presence byte is 0 or 1, ABIs whose extension members come last, and arrays of fewer than 2^31 elements.)',
     ['inputs'], 'all data, element counts, positions and continuations of each step, with structs of up to three members and variants of up to three alternatives',
     'The tests convert a few dozen documents; positions, counts and the end of data at each extension are states of a machine that samples barely visit.',
     ['src/abieos.hpp'],
     [('object, array, variant, optional and extension steps', 'src/abieos.hpp: bin_to_json'), ('driver and depth limit', 'src/abieos.hpp: bin_to_json(input_stream&, const abi_type*, S&, F&&)')],
     note='Each step is proved against the contract of the serializer it calls; the steps of structs (at most three members) and variants (at most three alternatives) and the driver (depth up to 130) are bounded in that number. ')
prop('C21', 'ABI: JSON to binary follows the type, step by step',
     'Converting a JSON document to binary with an ABI type accepts exactly the documents of that type and produces exactly the bytes of the value. Member order variant: members must come in order, each exactly once; a missing, repeated, unknown or misplaced member is an error, except that extension members in the last position may be left out, after which no member may follow. An array writes its element count, however many elements there are, before its elements, also when arrays are nested; a variant must be ["name",value] with a known name and writes its index; an optional writes a presence byte. Order-independent variant: the same, with members found by name in any order, unknown members ignored, and the last of repeated members used. Nesting deeper than 128, or text after the document, is an error.',
     ['inputs'], 'all tokens at every state of each step, with structs of up to three members and variants of three alternatives; element counts and positions arbitrary',
     'The tests convert a few dozen documents; wrong tokens at each state, left-out extensions and nested counts are combinations no sample list covers.',
     ['src/abieos.hpp'],
     [('token steps', 'src/abieos.hpp: json_to_bin(pseudo_object*, json_to_bin_state&), pseudo_array, pseudo_variant, pseudo_optional'), ('tree steps', 'src/abieos.hpp: json_to_bin(pseudo_object*, jvalue_to_bin_state&), receive_event, json_to_jobject, json_to_jarray'), ('size insertions', 'src/abieos.hpp: json_to_bin(std::vector<char>&, const abi_type*, std::string_view, F&&)')],
     note='Each step is proved against the contract of the serializer it calls; the steps of structs (at most three members) and variants (three alternatives), the tree steps (at most three values) and the final insertion of counts (three arrays) are bounded in those numbers. rapidjson is replaced by an arbitrary token script. ')
prop('C14', 'Key and signature texts carry exactly the key, curve and checksum',
     'The text of a public key, private key or signature is PUB_, PVT_ or SIG_, then K1_, R1_ or WA_ for its kind, then the base-58 text of its bytes followed by the first four bytes of the RIPEMD-160 of those bytes and the kind ("K1", "R1", "WA"). Reading a text gives the key of the kind the prefix names, whose bytes the text after the prefix decodes to, and fails with an error exactly when the prefix is none of these (or, for public keys, the old "EOS", which means K1 with a checksum over the bytes alone), a character is outside the base-58 alphabet, there are too few bytes, or the checksum differs; so text and value round-trip. A private key without prefix (the old form) is the 32 bytes after the first of its base-58 bytes, of which the last four are dropped. Base 58 writes one "1" for every leading zero byte and otherwise the digits of the number the bytes spell.',
     ['inputs'], 'all key and signature bytes; all decoded contents up to a few bytes longer than a key; prefixes: all texts of up to 10 characters',
     'The tests read and write a handful of keys; a wrong checksum byte, a short or long body, a wrong kind or an overlong text are chosen by an adversary, not by samples.',
     ['src/crypto.cpp', I + 'crypto.hpp'],
     [('text with checksum', 'src/crypto.cpp: string_to_key, key_to_string, digest_suffix_ripemd160'), ('prefix tables', 'src/crypto.cpp: public_key_from_string, private_key_from_string, signature_from_string'), ('base 58', 'src/crypto.cpp: base58_to_binary, binary_to_base58')],
     note='In the contracts of keys the base-58 codec and the checksum are replaced by their contracts (any bytes, any text, any digest). The codec itself is checked against its definition only for a few bytes (bounded: up to three leading zeros and one or two digits), its alphabet table completely; the parsers are bounded to 40 to 72 decoded bytes. ')
prop('C13', 'Base 58 is an exact bijection for byte strings of any length',
     'For byte strings of any length, base-58 text has one "1" per leading zero byte followed by the base-58 digits of the number the bytes spell, without leading zero digits; decoding accepts exactly the texts over the alphabet and is the inverse in both directions.',
     ['inputs'], 'all byte strings and all texts, of any length',
     'Carries run through the whole number, and leading zeros interact with them; a sample of keys visits few carry patterns.',
     ['src/crypto.cpp'], [('big-number loops', 'src/crypto.cpp: base58_to_binary, binary_to_base58')],
     na='The contract needs nonlinear invariants over big numbers of unbounded length (sum of digit*58^i); the solvers here do not settle even two-byte encodings bit-precisely. The alphabet, leading zeros and one- and two-digit cases are proved under C14; for all lengths nothing is claimed.')
prop('C22', 'ABI type resolution accepts exactly the well-formed ABIs',
     'Loading an ABI resolves every type name to the declared struct, variant, alias or builtin (with the array, optional and extension suffixes), rejects duplicates, cycles, unknown names, invalid nesting and over-deep chains, and never leaves a type unresolved.',
     ['inputs'], 'all ABI documents', 'The tests load a few ABIs; cycles through aliases, bases and suffixes form an unbounded family.',
     ['src/abi.cpp'], [('resolution', 'src/abi.cpp: get_type, resolve')],
     na='The contract is over std::map<std::string, abi_type> with mutual recursion through the map: it needs a heap-shape (separation) invariant for red-black trees and strings that this verifier has no quantified representation for. The steps that use a resolved type are under C20 and C21.')
prop('C24', 'Floating-point JSON text round-trips every finite value',
     'The JSON text of every finite float and double reads back as exactly the same value.',
     ['inputs'], 'all 2^32 and 2^64 bit patterns', 'Shortest-digits printing fails on isolated values among 2^64.',
     [I + 'fpconv.c', I + 'to_json.hpp', I + 'from_json.hpp'], [('printing', I + 'fpconv.c'), ('reading', I + 'from_json.hpp: from_json(double) through strtod')],
     na='Reading is strtod of libc (outside /repo, its correct rounding would be an assumed contract) and printing is Grisu2, whose correctness argument (error bounds on 64-bit approximations of powers of ten) is a real-arithmetic proof that bit-vector SMT does not reach.')
