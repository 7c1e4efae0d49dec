// Instantiates the percent-encoding templates for the deductive engine. Nothing here is code under test.
#include <cstdint>
#include <iterator>
#include <string>
#include <string_view>
#include "uri/pctencode.hpp"
#include "uri/pctdecode.hpp"

namespace verif {
struct Sink {  // an output container: push_back has no body, its contract appends to a ghost sequence
  using value_type = char;
  void push_back (char c);
};
using Out = std::back_insert_iterator<Sink>;
using SV = std::string_view;
using VI = uri::pctdecode_view<SV>::iterator;

char x_dec2hex (unsigned v) { return uri::dec2hex (v); }
Out x_pctencode (char const* f, char const* l, Out o, uri::pctencode_set es) { return uri::pctencode (f, l, o, es); }
std::string x_pctencode_str (SV s, uri::pctencode_set es) { return uri::pctencode (s, es); }

std::byte x_hex2dec (char c) { return uri::details::hex2dec (c); }
bool x_either_bad (std::byte a, std::byte b) { return uri::details::either_bad (a, b); }
char const* x_increment (char const* p, char const* e) { return uri::details::increment (p, e); }
char const& x_deref (char const* p, char const* e, char* h) { return uri::details::deref<char const&> (p, e, h); }
bool x_needs_pctdecode (char const* f, char const* l) { return uri::needs_pctdecode (f, l); }
std::string x_pctdecode (SV s) { return uri::pctdecode (s); }

// the iterator classes
using PI = uri::pctdecode_iterator<char const*>;
char const& x_pi_deref (PI const& i) { return *i; }
PI& x_pi_inc (PI& i) { return ++i; }
PI x_pi_post (PI& i) { return i++; }
bool x_pi_eq (PI const& a, PI const& b) { return a == b; }
char const* x_pi_arrow (PI const& i) { return i.operator-> (); }
PI x_pi_begin (SV const& s) { return uri::pctdecode_begin (s); }
PI x_pi_end (SV const& s) { return uri::pctdecode_end (s); }
PI x_dec_begin (SV const& s) { return uri::pctdecoder{s}.begin (); }
PI x_dec_end (SV const& s) { return uri::pctdecoder{s}.end (); }
PI x_dec2_begin (char const* f, char const* l) { return uri::pctdecoder<char const*>{f, l}.begin (); }
PI x_dec2_end (char const* f, char const* l) { return uri::pctdecoder<char const*>{f, l}.end (); }

// the view
using View = uri::pctdecode_view<SV>;
char const& x_vi_deref (VI const& i) { return *i; }
char const& x_vi_move (VI const& i) { auto&& r = std::ranges::iter_move (i); return r; }
char const* x_vi_arrow (VI const& i) { return i.operator-> (); }
VI& x_vi_inc (VI& i) { return ++i; }
VI x_vi_post (VI& i) { return i++; }
bool x_vi_eq (VI const& a, VI const& b) { return a == b; }
VI x_view_begin (View const& v) { return v.begin (); }
VI x_view_end (View const& v) { return v.end (); }
View x_view_make (SV s) { return s | uri::views::pctdecode; }
}  // namespace verif
