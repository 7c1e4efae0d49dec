// Instantiates the punycode decoder for the deductive engine. Nothing here is code under test.
#include <cstddef>
#include <string>
#include <string_view>
#include <variant>
#include "uri/punycode.hpp"

namespace verif {
unsigned digit (unsigned char c) { return uri::punycode::details::decode_digit (c); }
std::size_t clampk (std::size_t k, std::size_t bias) { return uri::punycode::details::clampk (k, bias); }
std::size_t adapt (std::size_t d, std::size_t n, bool f) { return uri::punycode::details::adapt (d, n, f); }
// 0 and the code points, or the error's value
int decode (char const* first, char const* last, std::u32string& out, char const*& in) {
  auto r = uri::punycode::decode (first, last);
  if (auto const* e = std::get_if<std::error_code> (&r)) return e->value ();
  auto& s = std::get<uri::punycode::decode_success_result<char const*>> (r);
  out = std::move (s.str);
  in = s.in;
  return 0;
}
int decode_view (std::string_view const& text, std::u32string& out, char const*& in) {
  auto r = uri::punycode::decode (text);
  if (auto const* e = std::get_if<std::error_code> (&r)) return e->value ();
  auto& s = std::get<uri::punycode::decode_success_result<char const*>> (r);
  out = std::move (s.str);
  in = s.in;
  return 0;
}
int vli (char const* first, char const* last, std::size_t i, std::size_t bias, std::size_t& value, char const*& next) {
  auto const r = uri::punycode::details::decode_vli (first, last, i, bias);
  if (auto const* e = std::get_if<std::error_code> (&r)) return e->value ();
  value = std::get<0> (std::get<1> (r));
  next = std::get<1> (std::get<1> (r));
  return 0;
}
}  // namespace verif
