// Oracles written from RFC 3986, RFC 3492, the WHATWG URL sets and the Unicode Standard,
// and generators. Independent of the code under test.
#include "common.hpp"
#include <algorithm>

namespace vf {
std::string_view const uri_alphabet = "aAfgGz019./.:/?#[]@%!$&'()*+,;=-_~ \"<>\\^`{|}vV25::%41\x01\x7f\x80\xff";

namespace {
bool is_alpha (char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool is_digit (char c) { return c >= '0' && c <= '9'; }
bool is_hex (char c) { return is_digit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool is_unres (char c) { return is_alpha (c) || is_digit (c) || c == '-' || c == '.' || c == '_' || c == '~'; }
bool is_sub (char c) { return c != 0 && std::strchr ("!$&'()*+,;=", c) != nullptr; }
// *( unreserved / pct-encoded / sub-delims / extra )
bool run_of (std::string_view s, char const* extra) {
  for (std::size_t i = 0; i < s.size ();) {
    if (s[i] == '%') {
      if (i + 2 >= s.size () || !is_hex (s[i + 1]) || !is_hex (s[i + 2])) return false;
      i += 3;
      continue;
    }
    if (!is_unres (s[i]) && !is_sub (s[i]) && (s[i] == 0 || std::strchr (extra, s[i]) == nullptr)) return false;
    ++i;
  }
  return true;
}
bool o_dec_octet (std::string_view s) {
  if (s.empty () || s.size () > 3) return false;
  for (char c : s) if (!is_digit (c)) return false;
  if (s.size () > 1 && s[0] == '0') return false;
  int v = 0;
  for (char c : s) v = v * 10 + (c - '0');
  return v <= 255;
}
std::vector<std::string_view> split_on (std::string_view s, char d) {
  std::vector<std::string_view> r;
  std::size_t p = 0;
  for (;;) {
    auto q = s.find (d, p);
    if (q == std::string_view::npos) { r.push_back (s.substr (p)); return r; }
    r.push_back (s.substr (p, q - p));
    p = q + 1;
  }
}
bool o_ipv4 (std::string_view s) {
  auto v = split_on (s, '.');
  if (v.size () != 4) return false;
  return std::all_of (v.begin (), v.end (), o_dec_octet);
}
bool o_h16 (std::string_view s) { return !s.empty () && s.size () <= 4 && std::all_of (s.begin (), s.end (), is_hex); }
// number of 16-bit groups of a colon separated list (last may be IPv4 when v4), -1 if malformed; empty text is 0 groups
int groups (std::string_view s, bool v4) {
  if (s.empty ()) return 0;
  int n = 0;
  auto v = split_on (s, ':');
  for (std::size_t i = 0; i < v.size (); ++i) {
    if (o_h16 (v[i])) ++n;
    else if (v4 && i + 1 == v.size () && o_ipv4 (v[i])) n += 2;
    else return -1;
  }
  return n;
}
bool o_ipv6 (std::string_view s) {
  auto p = s.find ("::");
  if (p == std::string_view::npos) return groups (s, true) == 8;
  auto l = s.substr (0, p);
  auto r = s.substr (p + 2);
  if (r.find ("::") != std::string_view::npos) return false;
  int a = groups (l, false);
  int b = groups (r, true);
  if (a < 0 || b < 0) return false;
  return a + b <= 7;
}
bool o_ipvfuture (std::string_view s) {
  if (s.size () < 4 || (s[0] != 'v' && s[0] != 'V')) return false;
  auto d = s.find ('.');
  if (d == std::string_view::npos || d < 2) return false;
  for (char c : s.substr (1, d - 1)) if (!is_hex (c)) return false;
  auto t = s.substr (d + 1);
  if (t.empty ()) return false;
  for (char c : t) if (!is_unres (c) && !is_sub (c) && c != ':') return false;
  return true;
}
}  // namespace

bool o_regname (std::string_view s) { return run_of (s, ""); }
bool o_scheme (std::string_view s) {
  if (s.empty () || !is_alpha (s[0])) return false;
  for (char c : s) if (!is_alpha (c) && !is_digit (c) && c != '+' && c != '-' && c != '.') return false;
  return true;
}
bool o_userinfo (std::string_view s) { return run_of (s, ":"); }
bool o_host (std::string_view s) {
  if (!s.empty () && s[0] == '[') {
    if (s.size () < 2 || s.back () != ']') return false;
    auto t = s.substr (1, s.size () - 2);
    return o_ipv6 (t) || o_ipvfuture (t);
  }
  return o_regname (s);
}
bool o_port (std::string_view s) { return std::all_of (s.begin (), s.end (), is_digit); }
bool o_segment (std::string_view s) { return run_of (s, ":@"); }
bool o_query (std::string_view s) { return run_of (s, ":@/?"); }

std::string o_path_text (PV const& p) {
  std::string r;
  bool first = true;
  for (auto const& s : p.segments) {
    if (!first || p.absolute) r += '/';
    first = false;
    r += s;
  }
  return r;
}
std::string o_compose (PV const& p) {
  std::string r;
  if (p.scheme) r += *p.scheme + ":";
  if (p.has_auth) {
    r += "//";
    if (p.userinfo) r += *p.userinfo + "@";
    r += p.host;
    if (p.port) r += ":" + *p.port;
    if (!p.segments.empty () && !p.absolute) r += '/';
  }
  r += o_path_text (p);
  if (p.query) r += "?" + *p.query;
  if (p.fragment) r += "#" + *p.fragment;
  return r;
}

// The component split of RFC 3986 appendix B, followed by checking every component.
std::optional<PV> o_parse (std::string_view s, bool reference) {
  PV p;
  std::string_view rest = s;
  // scheme: everything before the first of ":/?#", if that is ':'
  auto e = rest.find_first_of (":/?#");
  if (e != std::string_view::npos && rest[e] == ':' && e > 0 && o_scheme (rest.substr (0, e))) {
    p.scheme = std::string (rest.substr (0, e));
    rest.remove_prefix (e + 1);
  } else if (!reference) {
    return std::nullopt;
  }
  if (auto h = rest.find ('#'); h != std::string_view::npos) {
    p.fragment = std::string (rest.substr (h + 1));
    rest = rest.substr (0, h);
  }
  if (auto q = rest.find ('?'); q != std::string_view::npos) {
    p.query = std::string (rest.substr (q + 1));
    rest = rest.substr (0, q);
  }
  if (rest.substr (0, 2) == "//") {
    rest.remove_prefix (2);
    auto sl = rest.find ('/');
    auto a = rest.substr (0, sl);
    rest = sl == std::string_view::npos ? std::string_view{} : rest.substr (sl);
    p.has_auth = true;
    if (auto at = a.find ('@'); at != std::string_view::npos) {
      p.userinfo = std::string (a.substr (0, at));
      a.remove_prefix (at + 1);
    }
    std::size_t hostend;
    if (!a.empty () && a[0] == '[') {
      auto b = a.find (']');
      if (b == std::string_view::npos) return std::nullopt;
      hostend = b + 1;
    } else {
      hostend = std::min (a.find (':'), a.size ());
    }
    p.host = std::string (a.substr (0, hostend));
    a.remove_prefix (hostend);
    if (!a.empty ()) {
      if (a[0] != ':') return std::nullopt;
      p.port = std::string (a.substr (1));
    }
    if (p.userinfo && !o_userinfo (*p.userinfo)) return std::nullopt;
    if (!o_host (p.host)) return std::nullopt;
    if (p.port && !o_port (*p.port)) return std::nullopt;
  }
  if (p.query && !o_query (*p.query)) return std::nullopt;
  if (p.fragment && !o_query (*p.fragment)) return std::nullopt;
  // rest is the path
  if (!rest.empty ()) {
    auto t = rest;
    if (t[0] == '/') {
      p.absolute = true;
      t.remove_prefix (1);
    }
    auto v = split_on (t, '/');
    for (auto x : v) {
      if (!o_segment (x)) return std::nullopt;
      p.segments.emplace_back (x);
    }
    if (!p.absolute && !p.scheme && p.segments[0].find (':') != std::string::npos) return std::nullopt;
  }
  return p;
}

// ---- percent encoding ----
// enumerators in order: none fragment query special_query path userinfo component form_urlencoded
bool o_in_set (unsigned char b, unsigned set) {
  if (b <= 0x20 || b > 0x7e) return true;  // C0 control set, DEL and above, and space
  if (set == 0) return false;
  if (b == '%') return true;
  auto in = [b] (char const* s) { return std::strchr (s, b) != nullptr; };
  switch (set) {
  case 1: return in ("\"<>`");
  case 2: return in ("\"#<>");
  case 3: return in ("\"#<>'");
  case 4: return in ("\"#<>?^`{}");
  case 5: return in ("\"#<>?`{}/:;=@[\\]^|");
  case 6: return in ("\"#<>?`{}/:;=@[\\]^|$&+,");
  case 7: return in ("\"#<>?`{}/:;=@[\\]^|$&+,!'()~");
  default: return false;
  }
}
std::string o_pctdecode (std::string_view s) {
  std::string r;
  auto val = [] (char c) -> int {
    if (is_digit (c)) return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return c - 'A' + 10;
  };
  for (std::size_t i = 0; i < s.size ();) {
    if (s[i] == '%' && s.size () - i >= 3 && is_hex (s[i + 1]) && is_hex (s[i + 2])) {
      r += static_cast<char> (val (s[i + 1]) * 16 + val (s[i + 2]));
      i += 3;
    } else r += s[i++];
  }
  return r;
}

// ---- Unicode ----
bool o_scalar (std::uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
std::u32string o_u8to32 (std::string_view s, bool& wf) {
  std::u32string r;
  wf = true;
  for (std::size_t i = 0; i < s.size ();) {
    auto b = static_cast<unsigned char> (s[i]);
    unsigned n = b < 0x80 ? 1 : b >= 0xC2 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF4 ? 4 : 0;
    if (n == 0 || i + n > s.size ()) { wf = false; return r; }
    std::uint32_t c = n == 1 ? b : b & (0x7FU >> n);
    for (unsigned k = 1; k < n; ++k) {
      auto x = static_cast<unsigned char> (s[i + k]);
      if ((x & 0xC0U) != 0x80) { wf = false; return r; }
      c = (c << 6U) | (x & 0x3FU);
    }
    if ((n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || !o_scalar (c)) { wf = false; return r; }
    r += static_cast<char32_t> (c);
    i += n;
  }
  return r;
}
std::string o_u32to8 (std::u32string const& s) {
  std::string r;
  for (char32_t c : s) {
    auto p = [&r] (std::uint32_t v) { r += static_cast<char> (v); };
    if (c < 0x80) p (c);
    else if (c < 0x800) { p (0xC0 | (c >> 6U)); p (0x80 | (c & 0x3FU)); }
    else if (c < 0x10000) { p (0xE0 | (c >> 12U)); p (0x80 | ((c >> 6U) & 0x3FU)); p (0x80 | (c & 0x3FU)); }
    else { p (0xF0 | (c >> 18U)); p (0x80 | ((c >> 12U) & 0x3FU)); p (0x80 | ((c >> 6U) & 0x3FU)); p (0x80 | (c & 0x3FU)); }
  }
  return r;
}
std::string pack32 (std::u32string const& s) {
  std::string r;
  for (char32_t c : s) for (int k = 0; k < 4; ++k) r += static_cast<char> (static_cast<std::uint32_t> (c) >> (8 * k));
  return r;
}
std::u32string unpack32 (std::string const& s) {
  std::u32string r;
  for (std::size_t i = 0; i + 3 < s.size (); i += 4) {
    std::uint32_t c = 0;
    for (unsigned k = 0; k < 4; ++k) c |= static_cast<std::uint32_t> (static_cast<unsigned char> (s[i + k])) << (8 * k);
    r += static_cast<char32_t> (c);
  }
  return r;
}

// ---- punycode (RFC 3492), unbounded integers where the RFC has them ----
namespace {
using u128 = unsigned __int128;
unsigned thresh (unsigned k, u128 bias) {  // section 6.3 steps
  if (static_cast<u128> (k) <= bias) return 1;
  if (static_cast<u128> (k) >= bias + 26) return 26;
  return static_cast<unsigned> (k - bias);
}
u128 o_adapt (u128 delta, u128 numpoints, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / numpoints;
  u128 k = 0;
  while (delta > 455) { delta /= 35; k += 36; }
  return k + 36 * delta / (delta + 38);
}
}  // namespace
std::string o_puny_encode (std::u32string const& s, bool allow_plain, bool& any) {
  std::string out;
  u128 b = 0;
  for (char32_t c : s) if (c < 0x80) { out += static_cast<char> (c); ++b; }
  any = b != s.size ();
  if (allow_plain && !any) return out;
  if (b > 0) out += '-';
  u128 n = 128, delta = 0, bias = 72, h = b;
  while (h < s.size ()) {
    u128 m = static_cast<u128> (1) << 40U;
    for (char32_t c : s) if (c >= n && c < m) m = c;
    delta += (m - n) * (h + 1);
    n = m;
    for (char32_t c : s) {
      if (c < n) ++delta;
      if (c == n) {
        u128 q = delta;
        for (unsigned k = 36;; k += 36) {
          u128 t = thresh (k, bias);
          if (q < t) break;
          auto d = static_cast<unsigned> (t + (q - t) % (36 - t));
          out += static_cast<char> (d < 26 ? 'a' + d : '0' + (d - 26));
          q = (q - t) / (36 - t);
        }
        auto d = static_cast<unsigned> (q);
        out += static_cast<char> (d < 26 ? 'a' + d : '0' + (d - 26));
        bias = o_adapt (delta, h + 1, h == b);
        delta = 0;
        ++h;
      }
    }
    ++delta;
    ++n;
  }
  return out;
}
int o_puny_decode (std::string_view s, std::u32string& out) {
  out.clear ();
  auto d = s.rfind ('-');
  std::size_t pos = 0;
  if (d != std::string_view::npos) {
    for (std::size_t i = 0; i < d; ++i) {
      if (static_cast<unsigned char> (s[i]) >= 0x80) return 1;
      out += static_cast<char32_t> (s[i]);
    }
    pos = d + 1;
  }
  u128 const max64 = ~static_cast<std::uint64_t> (0);
  u128 n = 128, i = 0, bias = 72;
  while (pos < s.size ()) {
    u128 oldi = i, w = 1;
    for (unsigned k = 36;; k += 36) {
      if (pos >= s.size ()) return 1;
      char c = s[pos++];
      unsigned v = is_digit (c) ? static_cast<unsigned> (c - '0' + 26) : c >= 'a' && c <= 'z' ? static_cast<unsigned> (c - 'a') : c >= 'A' && c <= 'Z' ? static_cast<unsigned> (c - 'A') : 99U;
      if (v > 35) return 1;
      if (static_cast<u128> (v) * w + i > max64) return 2;
      i += static_cast<u128> (v) * w;
      auto t = thresh (k, bias);
      if (v < t) break;
      if (w * (36 - t) > max64) return 2;
      w *= 36 - t;
    }
    u128 len = out.size () + 1;
    bias = o_adapt (i - oldi, len, oldi == 0);
    if (n + i / len > 0xFFFFFFFFU) return 2;
    n += i / len;
    i %= len;
    out.insert (static_cast<std::size_t> (i), 1, static_cast<char32_t> (static_cast<std::uint32_t> (n)));
    ++i;
  }
  return 0;
}

// ---- generators ----
std::string mutate (Rng& r, std::string s, std::string_view alphabet) {
  unsigned n = 1 + r.upto (3);
  while (n-- > 0) {
    auto pos = r.upto (static_cast<unsigned> (s.size ()) + 1);
    switch (r.upto (6)) {
    case 0: s.insert (pos, 1, alphabet[r.upto (static_cast<unsigned> (alphabet.size ()))]); break;
    case 1: if (pos < s.size ()) s.erase (pos, 1 + r.upto (3)); break;
    case 2: if (pos < s.size ()) s[pos] = alphabet[r.upto (static_cast<unsigned> (alphabet.size ()))]; break;
    case 3: if (pos < s.size ()) s[pos] = static_cast<char> (r.upto (256)); break;
    case 4: if (pos < s.size ()) s.insert (pos, s.substr (pos, 1 + r.upto (6))); break;
    default: if (pos < s.size () && r.chance (1, 2)) s.resize (pos); else s.insert (pos, dword (r)); break;
    }
  }
  return s;
}
namespace {
std::string gen_run (Rng& r, std::string_view extra, unsigned n) {
  std::string s;
  static std::string_view const un = "abzAZ09-._~xfF";
  static std::string_view const sub = "!$&'()*+,;=";
  static std::string_view const hx = "0123456789abcdefABCDEF";
  for (unsigned i = 0; i < n; ++i) {
    switch (r.upto (5)) {
    case 0: s += '%'; s += r.pick (hx); s += r.pick (hx); break;
    case 1: s += r.pick (sub); break;
    case 2: if (!extra.empty ()) { s += r.pick (extra); break; } [[fallthrough]];
    default: s += r.pick (un); break;
    }
  }
  return s;
}
std::string gen_h16 (Rng& r) { return rndstr (r, "0123456789abcdefABCDEF", 1 + r.upto (r.chance (1, 20) ? 6 : 4)); }
std::string gen_octet (Rng& r) { return std::to_string (r.chance (1, 8) ? r.upto (1000) : r.chance (1, 3) ? 245 + r.upto (12) : r.upto (256)); }
std::string gen_ipv4 (Rng& r) {
  std::string s = gen_octet (r);
  unsigned n = r.chance (1, 10) ? r.upto (6) : 3;
  for (unsigned i = 0; i < n; ++i) s += "." + gen_octet (r);
  return s;
}
std::string gen_ipv6 (Rng& r) {
  unsigned total = r.chance (1, 6) ? r.upto (10) : 8;
  std::string s;
  auto emit = [&] (unsigned n) {
    std::string t;
    for (unsigned i = 0; i < n; ++i) t += (i != 0 ? ":" : "") + gen_h16 (r);
    return t;
  };
  bool v4 = r.chance (1, 3);
  if (r.chance (1, 3)) {
    if (v4 && total >= 2) { s = emit (total - 2) + (total > 2 ? ":" : "") + gen_ipv4 (r); }
    else s = emit (total);
  } else {
    unsigned a = r.upto (9), b = r.upto (9);
    if (r.chance (3, 4)) { a = r.upto (8); b = r.upto (8 - a); }
    s = emit (a) + "::";
    if (v4 && b >= 2) s += emit (b - 2) + (b > 2 ? ":" : "") + gen_ipv4 (r);
    else s += emit (b);
  }
  return s;
}
std::string gen_host (Rng& r) {
  switch (r.upto (7)) {
  case 0: return "[" + gen_ipv6 (r) + "]";
  case 1: return "[" + std::string (r.chance (1, 2) ? "v" : "V") + rndstr (r, "0123456789abcdefABCDEF", r.len (2)) + "." + rndstr (r, "abz019:-._~!$=", r.len (3)) + "]";
  case 2: return gen_ipv4 (r);
  case 3: return gen_ipv4 (r) + rndstr (r, ".a09-%", r.len (3));
  default: return gen_run (r, "", dlen (r, 5));
  }
}
std::string gen_scheme (Rng& r) {
  std::string s = rndstr (r, "abzAZhtp", 1);
  return s + rndstr (r, "abzAZ019+-.", dlen (r, 4));
}
}  // namespace
std::string gen_segment (Rng& r, bool dirty) {
  switch (r.upto (8)) {
  case 0: return ".";
  case 1: return "..";
  case 2: return "";
  case 3: return r.chance (1, 2) ? "..." : r.chance (1, 2) ? ".a" : "a.";
  case 4: return dirty ? rndbytes (r, r.len (4)) : gen_run (r, ":@", r.len (3));
  case 5: if (dirty) return r.chance (1, 2) ? dword (r) : rndstr (r, uri_alphabet, r.len (4)); [[fallthrough]];
  default: return gen_run (r, ":@", dlen (r, 3));
  }
}
std::string gen_uri (Rng& r, bool need_scheme) {
  std::string s;
  if (need_scheme || r.chance (1, 2)) s += gen_scheme (r) + ":";
  bool auth = r.chance (1, 2);
  if (auth) {
    s += "//";
    if (r.chance (1, 3)) s += gen_run (r, ":", r.len (4)) + "@";
    s += gen_host (r);
    if (r.chance (1, 3)) s += ":" + rndstr (r, "0123456789", dlen (r, 3));
  }
  unsigned n = dlen (r, 3);
  for (unsigned i = 0; i < n; ++i) {
    if (i > 0 || r.chance (3, 4)) s += '/';
    s += gen_segment (r, false);
  }
  if (r.chance (1, 3)) s += "?" + gen_run (r, ":@/?", dlen (r, 4));
  if (r.chance (1, 3)) s += "#" + gen_run (r, ":@/?", dlen (r, 4));
  if (r.chance (1, 2)) return s;
  return mutate (r, s, uri_alphabet);
}
PV gen_pv (Rng& r, bool dirty) {
  PV p;
  auto run = [&] (std::string_view extra) { return dirty && r.chance (1, 4) ? (r.chance (1, 2) ? rndstr (r, uri_alphabet, r.len (4)) : mutate (r, gen_run (r, extra, r.len (4)), uri_alphabet)) : gen_run (r, extra, dlen (r, 4)); };
  if (r.chance (4, 5)) p.scheme = dirty && r.chance (1, 6) ? run ("") : gen_scheme (r);
  if (r.chance (1, 2)) {
    p.has_auth = true;
    if (r.chance (1, 3)) p.userinfo = run (":");
    p.host = dirty && r.chance (1, 4) ? mutate (r, gen_host (r), uri_alphabet) : gen_host (r);
    if (r.chance (1, 3)) p.port = dirty && r.chance (1, 4) ? run ("") : rndstr (r, "0123456789", dlen (r, 3));
  }
  p.absolute = r.chance (1, 2);
  unsigned n = dlen (r, 4);
  for (unsigned i = 0; i < n; ++i) p.segments.push_back (gen_segment (r, dirty));
  if (r.chance (1, 3)) p.query = run (":@/?");
  if (r.chance (1, 3)) p.fragment = run (":@/?");
  return p;
}
std::u32string gen_u32 (Rng& r, bool scalars_only) {
  static std::uint32_t const edge[] = {0, 0x2d, 0x2e, 0x41, 0x5a, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x3c00, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff};
  std::u32string s;
  unsigned n = dlen (r, 6);
  for (unsigned i = 0; i < n; ++i) {
    std::uint32_t c = 0;
    do {
      switch (r.upto (8)) {
      case 0: c = edge[r.upto (sizeof edge / sizeof edge[0])]; break;
      case 1: c = r.upto (0x110000); break;
      case 2: c = 0x80 + r.upto (0x200); break;
      case 3: if (!s.empty ()) { c = s[r.upto (static_cast<unsigned> (s.size ()))]; break; } [[fallthrough]];
      case 4: if (!s.empty ()) { c = s.back () + r.upto (3); break; } [[fallthrough]];
      case 5: if (!dict_numbers.empty ()) { c = r.pick (dict_numbers) + r.upto (3) - 1; if (c <= 0x10ffff) break; } [[fallthrough]];
      case 6: c = r.upto (0x10000); break;
      default: c = 0x20 + r.upto (0x5f); break;
      }
    } while (c > 0x10ffff || (scalars_only && !o_scalar (c)));
    s += static_cast<char32_t> (c);
  }
  return s;
}
std::string gen_host_utf8 (Rng& r) {
  std::string s;
  unsigned n = 1 + r.upto (5);
  for (unsigned i = 0; i < n; ++i) {
    if (i > 0) s += '.';
    switch (r.upto (5)) {
    case 0: break;
    case 1: s += o_u32to8 (gen_u32 (r, true)); break;
    case 2: { static char const* w[] = {"xn--", "xn-", "XN--", "xn--a", "x", "M\xc3\xbcnchen", "\xe2\x98\x83", "b\xc3\xbc" "cher"}; s += w[r.upto (8)]; break; }
    case 3: { auto u = gen_u32 (r, true); if (u.size () > 4) u.resize (4); s += o_u32to8 (u); break; }
    default: s += rndstr (r, "abcxyzn-09", r.len (5)); break;
    }
  }
  return s;
}
}  // namespace vf
