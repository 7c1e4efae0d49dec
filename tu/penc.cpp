// Instantiates the punycode encoder for the deductive engine. Nothing here is code under test.
#include <cstddef>
#include <iterator>
#include <string>
#include <string_view>
#include "uri/punycode.hpp"

namespace verif {
using Out = std::back_insert_iterator<std::string>;
char digit (unsigned d) { return uri::punycode::details::encode_digit (d); }
std::size_t clamp (std::size_t k, std::size_t bias) { return uri::punycode::details::clamp (k, bias); }
std::size_t adapt (std::size_t d, std::size_t n, bool f) { return uri::punycode::details::adapt (d, n, f); }
void vli (std::size_t q, std::size_t bias, std::string& out) { uri::punycode::details::encode_vli (q, bias, std::back_inserter (out)); }
// whether there were non-basic code points; where it stopped is left in "in"
bool encode (std::u32string_view const& text, bool plain, std::string& out, char32_t const*& in) {
  auto r = uri::punycode::encode (text, plain, std::back_inserter (out));
  in = std::get<0> (r);
  return std::get<2> (r);
}
}  // namespace verif
