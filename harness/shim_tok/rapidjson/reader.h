// Stand-in for rapidjson's token-at-a-time reader in the contracts about JSON reading: the tokens come from the
// harness (tok_next), i.e. from any document. rapidjson itself is a dependency outside /repo and is not verified.
#pragma once
#include <rapidjson/fwd.h>
#define Reader SystemReader_
#include_next <rapidjson/reader.h>
#undef Reader
bool tok_complete();
template <typename H> bool tok_next(H& h);
namespace rapidjson {
struct TokReader_ {
   void           IterativeParseInit() {}
   bool           IterativeParseComplete() const { return tok_complete(); }
   ParseErrorCode GetParseErrorCode() const { return kParseErrorUnspecificSyntaxError; }
   template <unsigned F, typename IS, typename H> bool IterativeParseNext(IS&, H& h) { return tok_next(h); }
   template <unsigned F, typename IS, typename H> bool Parse(IS&, H& h) { // all tokens at once
      do
         if (!tok_next(h)) return false;
      while (!tok_complete());
      return true;
   }
};
} // namespace rapidjson
#define Reader TokReader_
