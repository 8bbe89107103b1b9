// a token source for the from_json templates (their stream type is a template parameter):
// hands out a given string token
#pragma once
#include <stdexcept>
#include <string_view>
struct mock_json {
   std::string_view str;
   int              left = 1;
   std::string_view get_string() {
      if (left-- <= 0) throw std::runtime_error("no token");
      return str;
   }
};
