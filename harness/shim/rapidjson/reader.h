// The rapidjson revision abieos pins (external/rapidjson, a submodule that is empty
// here) has a token-at-a-time interface that the installed rapidjson 1.1.0 lacks.
// This header adds that interface; rapidjson itself is a dependency outside /repo.
#pragma once
#include <rapidjson/fwd.h>
#define Reader SystemReader_
#include_next <rapidjson/reader.h>
#undef Reader
#include <vector>
#include <cstring>

namespace rapidjson {
class IterReader_ : public SystemReader_ {
   std::vector<char> stack_; // '[' '{', first-element flag in case
   int               st_  = 0; // 0 value expected, 1 after value, 2 key expected (or '}'), 3 value or ']', 4 key required, 9 done
   ParseErrorCode    err_ = kParseErrorNone;

 public:
   void           IterativeParseInit() { stack_.clear(); st_ = 0; err_ = kParseErrorNone; }
   bool           IterativeParseComplete() const { return st_ == 9; }
   ParseErrorCode GetParseErrorCode() const { return err_ != kParseErrorNone ? err_ : SystemReader_::GetParseErrorCode(); }
   bool           HasParseError() const { return GetParseErrorCode() != kParseErrorNone; }

 private:
   bool fail(ParseErrorCode e) { err_ = e; st_ = 9; return false; }
   template <typename IS> static void ws(IS& s) { while (s.Peek() == ' ' || s.Peek() == '\n' || s.Peek() == '\r' || s.Peek() == '\t') s.Take(); }
   void after() { st_ = stack_.empty() ? 9 : 1; }
   template <typename IS> bool str(IS& is, char*& b, SizeType& n) {
      is.Take();
      char* head = is.src_; char* d = head;
      for (;;) {
         unsigned char c = (unsigned char)is.Peek();
         if (c == '"') { is.Take(); break; }
         if (c < 0x20) return fail(c ? kParseErrorStringEscapeInvalid : kParseErrorStringMissQuotationMark);
         if (c == '\\') {
            is.Take(); char e = is.Take();
            switch (e) {
               case '"': *d++ = '"'; break; case '\\': *d++ = '\\'; break; case '/': *d++ = '/'; break;
               case 'b': *d++ = '\b'; break; case 'f': *d++ = '\f'; break; case 'n': *d++ = '\n'; break;
               case 'r': *d++ = '\r'; break; case 't': *d++ = '\t'; break;
               case 'u': {
                  unsigned cp = 0;
                  auto hex4 = [&](unsigned& o) { o = 0; for (int i = 0; i < 4; ++i) { char h = is.Take(); o <<= 4;
                     if (h >= '0' && h <= '9') o |= h - '0'; else if (h >= 'a' && h <= 'f') o |= h - 'a' + 10;
                     else if (h >= 'A' && h <= 'F') o |= h - 'A' + 10; else return false; } return true; };
                  if (!hex4(cp)) return fail(kParseErrorStringUnicodeEscapeInvalidHex);
                  if (cp >= 0xD800 && cp <= 0xDFFF) {
                     unsigned lo;
                     if (cp > 0xDBFF || is.Peek() != '\\') return fail(kParseErrorStringUnicodeSurrogateInvalid);
                     is.Take(); if (is.Peek() != 'u') return fail(kParseErrorStringUnicodeSurrogateInvalid);
                     is.Take(); if (!hex4(lo)) return fail(kParseErrorStringUnicodeEscapeInvalidHex);
                     if (lo < 0xDC00 || lo > 0xDFFF) return fail(kParseErrorStringUnicodeSurrogateInvalid);
                     cp = 0x10000 + ((cp - 0xD800) << 10) + (lo - 0xDC00);
                  }
                  if (cp < 0x80) *d++ = cp;
                  else if (cp < 0x800) { *d++ = 0xC0 | cp >> 6; *d++ = 0x80 | (cp & 63); }
                  else if (cp < 0x10000) { *d++ = 0xE0 | cp >> 12; *d++ = 0x80 | (cp >> 6 & 63); *d++ = 0x80 | (cp & 63); }
                  else { *d++ = 0xF0 | cp >> 18; *d++ = 0x80 | (cp >> 12 & 63); *d++ = 0x80 | (cp >> 6 & 63); *d++ = 0x80 | (cp & 63); }
                  break;
               }
               default: return fail(kParseErrorStringEscapeInvalid);
            }
            continue;
         }
         // validate UTF-8
         int k = c < 0x80 ? 0 : c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : -1;
         if (k < 0) return fail(kParseErrorStringInvalidEncoding);
         *d++ = is.Take();
         for (int i = 0; i < k; ++i) {
            unsigned char x = (unsigned char)is.Peek();
            unsigned char lo = 0x80, hi = 0xBF;
            if (i == 0) { if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
            if (x < lo || x > hi) return fail(kParseErrorStringInvalidEncoding);
            *d++ = is.Take();
         }
      }
      b = head; n = (SizeType)(d - head);
      return true;
   }

 public:
   template <unsigned parseFlags, typename IS, typename H>
   bool IterativeParseNext(IS& is, H& h) {
      if (st_ == 9) return false;
      ws(is);
      if (st_ == 1) {
         char c = is.Peek();
         if (c == ',') { is.Take(); ws(is); st_ = stack_.back() == '{' ? 4 : 0; }
         else if (c == '}' && stack_.back() == '{') { is.Take(); stack_.pop_back(); after(); return h.EndObject(0) || fail(kParseErrorTermination); }
         else if (c == ']' && stack_.back() == '[') { is.Take(); stack_.pop_back(); after(); return h.EndArray(0) || fail(kParseErrorTermination); }
         else return fail(stack_.back() == '{' ? kParseErrorObjectMissCommaOrCurlyBracket : kParseErrorArrayMissCommaOrSquareBracket);
      }
      if (st_ == 2 && is.Peek() == '}') { is.Take(); stack_.pop_back(); after(); return h.EndObject(0) || fail(kParseErrorTermination); }
      if (st_ == 3 && is.Peek() == ']') { is.Take(); stack_.pop_back(); after(); return h.EndArray(0) || fail(kParseErrorTermination); }
      if (st_ == 2 || st_ == 4) {
         if (is.Peek() != '"') return fail(kParseErrorObjectMissName);
         char* b; SizeType n;
         if (!str(is, b, n)) return false;
         ws(is);
         if (is.Peek() != ':') return fail(kParseErrorObjectMissColon);
         is.Take(); st_ = 0;
         return h.Key(b, n, false) || fail(kParseErrorTermination);
      }
      char c = is.Peek();
      if (!c) return fail(stack_.empty() ? kParseErrorDocumentEmpty : kParseErrorValueInvalid);
      auto lit = [&](const char* l) { for (; *l; ++l) if (is.Peek() != *l) return false; else is.Take(); return true; };
      if (c == '{') { is.Take(); stack_.push_back('{'); st_ = 2; return h.StartObject() || fail(kParseErrorTermination); }
      if (c == '[') { is.Take(); stack_.push_back('['); st_ = 3; return h.StartArray() || fail(kParseErrorTermination); }
      bool r;
      if (c == '"') { char* b; SizeType n; if (!str(is, b, n)) return false; after(); r = h.String(b, n, false); }
      else if (c == 't') { if (!lit("true")) return fail(kParseErrorValueInvalid); after(); r = h.Bool(true); }
      else if (c == 'f') { if (!lit("false")) return fail(kParseErrorValueInvalid); after(); r = h.Bool(false); }
      else if (c == 'n') { if (!lit("null")) return fail(kParseErrorValueInvalid); after(); r = h.Null(); }
      else {
         char* b = is.src_;
         auto digit = [&] { return is.Peek() >= '0' && is.Peek() <= '9'; };
         if (is.Peek() == '-') is.Take();
         if (is.Peek() == '0') is.Take();
         else if (digit()) while (digit()) is.Take();
         else return fail(kParseErrorValueInvalid);
         if (is.Peek() == '.') { is.Take(); if (!digit()) return fail(kParseErrorNumberMissFraction); while (digit()) is.Take(); }
         if (is.Peek() == 'e' || is.Peek() == 'E') { is.Take(); if (is.Peek() == '+' || is.Peek() == '-') is.Take();
            if (!digit()) return fail(kParseErrorNumberMissExponent); while (digit()) is.Take(); }
         after();
         r = h.RawNumber(b, (SizeType)(is.src_ - b), false);
      }
      if (!r) return fail(kParseErrorTermination);
      if (st_ == 9) { ws(is); if (is.Peek()) return fail(kParseErrorDocumentRootNotSingular); }
      return true;
   }
};
} // namespace rapidjson
#define Reader IterReader_
