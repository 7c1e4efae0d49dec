// Instantiates the host name conversions for the deductive engine. Nothing here is code under test.
#include <cstddef>
#include <string>
#include <string_view>
#include <variant>
#include "uri/parts.hpp"

namespace verif {
bool encoded (std::u32string_view const& host, std::string& out) { return uri::details::puny_encoded (host, std::back_inserter (out)).any_non_ascii; }
std::size_t encoded_size (std::u32string_view const& host) { return uri::details::puny_encoded_size (host); }
// 0 or 1: whether a label was converted; one more than the error's value
int decoded (std::string_view const& host, std::string& out) {
  auto const r = uri::details::puny_decoded (host, std::back_inserter (out));
  if (auto const* e = std::get_if<std::error_code> (&r)) return e->value () + 1;
  return std::get<1U> (r).any_encoded ? 1 : 0;
}
std::variant<std::error_code, std::size_t> decoded_size (std::string_view const& host) { return uri::details::puny_decoded_size (host); }
// the label conversions with the ranges that the host conversions give them
bool encode_label (std::u32string_view const& rest, bool plain, std::string& out, char32_t const*& in) {
  auto view = std::ranges::subrange{rest.data (), rest.data () + rest.size ()} | std::views::take_while (uri::details::is_not_dot);
  auto const r = uri::punycode::encode (view, plain, std::back_inserter (out));
  in = std::get<0> (r);
  return std::get<2> (r);
}
int decode_label (std::string_view const& rest, std::u32string& out, char const*& in) {
  auto view = std::ranges::subrange{rest.data (), rest.data () + rest.size ()} | std::views::take_while (uri::details::is_not_dot);
  auto r = uri::punycode::decode (std::ranges::subrange{std::ranges::begin (view), std::ranges::end (view)});
  if (auto const* e = std::get_if<std::error_code> (&r)) return e->value ();
  auto& s = std::get<uri::punycode::decode_success_result<char const*>> (r);
  out = std::move (s.str);
  in = s.in;
  return 0;
}
}  // namespace verif
