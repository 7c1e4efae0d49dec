// Replay and bounded-search harness: shared declarations.
// Nothing here includes code from /repo; oracles are written from the RFCs.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace vf {
using Case = std::vector<std::string>;  // a case is a list of byte strings

struct Rng {
  std::uint64_t s;
  explicit Rng (std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL} {}
  std::uint64_t next () {
    s += 0x9E3779B97F4A7C15ULL;
    auto z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  unsigned upto (unsigned n) { return n == 0 ? 0 : static_cast<unsigned> (next () % n); }  // [0,n)
  bool chance (unsigned num, unsigned den) { return upto (den) < num; }
  // small lengths mostly, sometimes longer
  unsigned len (unsigned small) {
    if (chance (1, 40)) return upto (small * 8 + 40);
    return upto (small + 1);
  }
  template <typename C> auto const& pick (C const& c) { return c[upto (static_cast<unsigned> (c.size ()))]; }
};

struct Result {
  std::string fail;       // empty: held
  bool nontrivial = true;
};
inline Result ok (bool nt = true) { return {{}, nt}; }
inline Result bad (std::string m) { return {std::move (m), true}; }

struct Prop {
  char const* id;
  std::function<Case (Rng&, unsigned long)> gen;
  std::function<Result (Case const&)> check;
};
std::vector<Prop>& registry ();
struct Reg {
  Reg (char const* id, std::function<Case (Rng&, unsigned long)> g, std::function<Result (Case const&)> c) {
    registry ().push_back ({id, std::move (g), std::move (c)});
  }
};
// Words and numbers found in the sources under test (a dictionary for the generators).
extern std::vector<std::string> dict_words;
extern std::vector<unsigned> dict_numbers;

std::string show (std::string_view s);  // printable form
inline std::string show (std::string const& s) { return show (std::string_view{s}); }
inline std::string show (std::optional<std::string> const& s) { return s ? "\"" + show (std::string_view{*s}) + "\"" : "absent"; }

// a length: usually small, at times a number mentioned in the source (or next to it)
inline unsigned dlen (Rng& r, unsigned small) {
  if (!dict_numbers.empty () && r.chance (1, 25)) {
    auto n = r.pick (dict_numbers);
    if (n < 600) return n + r.upto (3) - (n > 0 ? 1 : 0);
  }
  return r.len (small);
}
inline std::string dword (Rng& r) { return dict_words.empty () ? std::string{} : r.pick (dict_words); }
inline std::string rndstr (Rng& r, std::string_view alphabet, unsigned n) {
  std::string s;
  for (unsigned i = 0; i < n; ++i) s += alphabet[r.upto (static_cast<unsigned> (alphabet.size ()))];
  return s;
}
inline std::string rndbytes (Rng& r, unsigned n) {
  std::string s;
  for (unsigned i = 0; i < n; ++i) s += static_cast<char> (r.upto (256));
  return s;
}
std::string mutate (Rng& r, std::string s, std::string_view alphabet);

// ---- Parts values used by several properties ----
struct PV {
  std::optional<std::string> scheme;
  bool has_auth = false;
  std::optional<std::string> userinfo;
  std::string host;
  std::optional<std::string> port;
  bool absolute = false;
  std::vector<std::string> segments;
  std::optional<std::string> query;
  std::optional<std::string> fragment;
};
inline void put (Case& c, std::optional<std::string> const& o) { c.push_back (o ? "+" + *o : "-"); }
inline std::optional<std::string> getopt_ (std::string const& s) {
  if (s.empty () || s[0] == '-') return std::nullopt;
  return s.substr (1);
}
inline void put (Case& c, PV const& p) {
  put (c, p.scheme);
  c.push_back (p.has_auth ? "A" : "-");
  put (c, p.userinfo);
  c.push_back (p.host);
  put (c, p.port);
  c.push_back (p.absolute ? "/" : "-");
  put (c, p.query);
  put (c, p.fragment);
  c.push_back (std::to_string (p.segments.size ()));
  for (auto const& s : p.segments) c.push_back (s);
}
inline PV getpv (Case const& c, std::size_t& i) {
  auto at = [&] (std::size_t k) -> std::string { return k < c.size () ? c[k] : std::string{}; };
  PV p;
  p.scheme = getopt_ (at (i++));
  p.has_auth = at (i++) == "A";
  p.userinfo = getopt_ (at (i++));
  p.host = at (i++);
  p.port = getopt_ (at (i++));
  p.absolute = at (i++) == "/";
  p.query = getopt_ (at (i++));
  p.fragment = getopt_ (at (i++));
  auto n = std::strtoul (at (i++).c_str (), nullptr, 10);
  for (unsigned long k = 0; k < n && i < c.size (); ++k) p.segments.push_back (at (i++));
  return p;
}
PV gen_pv (Rng& r, bool dirty);
std::string gen_uri (Rng& r, bool need_scheme);
std::string gen_segment (Rng& r, bool dirty);
extern std::string_view const uri_alphabet;

// ---- Oracles shared between properties ----
bool o_scheme (std::string_view);
bool o_userinfo (std::string_view);
bool o_host (std::string_view);
bool o_port (std::string_view);
bool o_segment (std::string_view);
bool o_query (std::string_view);
bool o_regname (std::string_view);
// RFC 3986: components of a URI or URI-reference, or nothing.
std::optional<PV> o_parse (std::string_view s, bool reference);
std::string o_path_text (PV const& p);
std::string o_compose (PV const& p);

// percent encoding, from the WHATWG sets
bool o_in_set (unsigned char b, unsigned set /* index into the enumerators, 0=none.. 7=form */);
std::string o_pctdecode (std::string_view s);

// Unicode
std::u32string o_u8to32 (std::string_view s, bool& well_formed);
std::string o_u32to8 (std::u32string const& s);
bool o_scalar (std::uint32_t c);
std::u32string gen_u32 (Rng& r, bool scalars_only);
std::string gen_host_utf8 (Rng& r);
std::string pack32 (std::u32string const& s);
std::u32string unpack32 (std::string const& s);

// punycode, from RFC 3492
std::string o_puny_encode (std::u32string const& s, bool allow_plain, bool& any);
// 0 ok, 1 bad_input, 2 overflow
int o_puny_decode (std::string_view s, std::u32string& out);
}  // namespace vf
#endif
