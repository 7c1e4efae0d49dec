// C11, C12, C13: punycode and host labels.
#include "common.hpp"
#include <list>
#include "uri/parts.hpp"

using namespace vf;
namespace {
std::string desc32 (std::u32string const& s) {
  std::string r;
  char b[16];
  for (char32_t c : s) { std::snprintf (b, sizeof b, "U+%04X ", static_cast<unsigned> (c)); r += b; }
  return r;
}
Case gen11 (Rng& r, unsigned long) {
  if (r.chance (1, 1000)) {  // long enough for deltas beyond 32 bits
    std::u32string s (2000 + r.upto (4000), U'a');
    for (unsigned k = 1 + r.upto (3); k > 0; --k) s.insert (r.chance (1, 2) ? s.size () : r.upto (static_cast<unsigned> (s.size ())), 1, r.chance (1, 2) ? static_cast<char32_t> (0x10FFFF - r.upto (3)) : static_cast<char32_t> (0x80 + r.upto (0x10000)));
    return {"p", pack32 (s)};
  }
  return {r.chance (1, 2) ? "p" : "n", pack32 (gen_u32 (r, false))};
}
Result c11 (Case const& c) {
  if (c.size () < 2) return ok (false);
  bool const plain = c[0] == "p";
  auto const in = unpack32 (c[1]);
  bool any = false;
  auto const w = o_puny_encode (in, plain, any);
  std::string g;
  auto const res = uri::punycode::encode (in, plain, std::back_inserter (g));
  if (g != w) return bad ("punycode::encode of " + desc32 (in) + "gives \"" + show (g) + "\" want \"" + show (w) + "\"");
  if (std::get<2> (res) != any) return bad ("punycode::encode of " + desc32 (in) + "reports any_non_ascii wrongly");
  if (std::get<0> (res) != in.end ()) return bad ("punycode::encode does not return the end of its input");
  std::list<char32_t> const l (in.begin (), in.end ());
  std::string g2;
  uri::punycode::encode (l, plain, std::back_inserter (g2));
  if (g2 != w) return bad ("punycode::encode of a list gives another result for " + desc32 (in));
  if (any || !plain) {
    auto const d = uri::punycode::decode (g);
    if (auto const* s = std::get_if<1> (&d)) {
      if (s->str != in) return bad ("decode of encode of " + desc32 (in) + "gives " + desc32 (s->str));
    } else return bad ("decode of encode of " + desc32 (in) + "fails");
  }
  return ok (!in.empty ());
}
Case gen12 (Rng& r, unsigned long i) {
  static char const al[] = "-a9zA\xff";
  std::string s;
  if (i % 5 == 0) {
    unsigned long k = i / 5;
    while (k > 0) { --k; s += al[k % 6]; k /= 6; }
    return {s};
  }
  switch (r.upto (6)) {
  case 0: s = rndbytes (r, r.len (8)); break;
  case 1: s = rndstr (r, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-", dlen (r, 12)); break;
  case 2: s = rndstr (r, "9zZ8", dlen (r, 24)); break;
  case 3: s = rndstr (r, "abc", r.len (4)) + "-" + rndstr (r, "99988zzabZ", dlen (r, 16)); break;
  default: {
    bool any = false;
    s = o_puny_encode (gen_u32 (r, false), false, any);
    if (r.chance (2, 3)) s = mutate (r, s, "abz09AZ-\x80");
    break;
  }
  }
  return {s};
}
Result c12 (Case const& c) {
  std::string const in = c.empty () ? std::string{} : c[0];
  std::vector<char> v (in.begin (), in.end ());
  v.shrink_to_fit ();
  std::u32string w;
  int const e = o_puny_decode (in, w);
  auto one = [&] (auto const& d, char const* what) -> Result {
    if (auto const* s = std::get_if<1> (&d)) {
      if (e != 0) return bad (std::string (what) + " of \"" + show (in) + "\" succeeds with " + desc32 (s->str) + "but RFC 3492 gives an error");
      if (s->str != w) return bad (std::string (what) + " of \"" + show (in) + "\" gives " + desc32 (s->str) + "want " + desc32 (w));
    } else {
      auto const& ec = std::get<0> (d);
      auto const want = uri::punycode::make_error_code (e == 1 ? uri::punycode::decode_error_code::bad_input : uri::punycode::decode_error_code::overflow);
      if (e == 0) return bad (std::string (what) + " of \"" + show (in) + "\" fails (" + ec.message () + ") but RFC 3492 gives " + desc32 (w));
      if (ec != want) return bad (std::string (what) + " of \"" + show (in) + "\" reports " + ec.message () + " want " + want.message ());
    }
    return ok (true);
  };
  if (auto r = one (uri::punycode::decode (v), "punycode::decode"); !r.fail.empty ()) return r;
  auto const d = uri::punycode::decode (v);
  if (auto const* s = std::get_if<1> (&d); s != nullptr && s->in != v.end ()) return bad ("punycode::decode does not return the end of its input");
  std::list<char> const l (in.begin (), in.end ());
  if (auto r = one (uri::punycode::decode (l.begin (), l.end ()), "punycode::decode (iterators)"); !r.fail.empty ()) return r;
  return ok (!in.empty ());
}
// ---- C13 ----
std::string o_host_encode (std::u32string const& in, bool& any) {
  std::string out;
  any = false;
  std::size_t p = 0;
  for (;;) {
    auto q = in.find (U'.', p);
    auto lab = in.substr (p, q == std::u32string::npos ? q : q - p);
    bool a = false;
    auto t = o_puny_encode (lab, true, a);
    if (a) { out += "xn--"; any = true; }
    out += t;
    if (q == std::u32string::npos) return out;
    out += '.';
    p = q + 1;
  }
}
bool o_host_decode (std::string const& in, std::string& out, bool& any) {
  any = false;
  out.clear ();
  std::size_t p = 0;
  for (;;) {
    auto q = in.find ('.', p);
    auto lab = in.substr (p, q == std::string::npos ? q : q - p);
    if (lab.rfind ("xn--", 0) == 0) {
      any = true;
      std::u32string u;
      if (o_puny_decode (std::string_view (lab).substr (4), u) != 0) return false;
      for (auto& ch : u) if (!o_scalar (ch)) ch = 0xFFFD;
      out += o_u32to8 (u);
    } else out += lab;
    if (q == std::string::npos) return true;
    out += '.';
    p = q + 1;
  }
}
Case gen13 (Rng& r, unsigned long) {
  if (r.chance (1, 2)) return {"e", gen_host_utf8 (r)};
  std::string s;
  unsigned n = 1 + r.upto (5);
  for (unsigned i = 0; i < n; ++i) {
    if (i > 0) s += '.';
    switch (r.upto (6)) {
    case 0: break;
    case 1: { bool a = false; s += "xn--" + o_puny_encode (gen_u32 (r, true), false, a); break; }
    case 2: { bool a = false; s += "xn--" + mutate (r, o_puny_encode (gen_u32 (r, true), false, a), "abz09-."); break; }
    case 3: s += rndstr (r, "xn-", 5); break;
    case 4: s += rndbytes (r, r.len (4)); break;
    default: s += rndstr (r, "abxn-09", r.len (5)); break;
    }
  }
  return {"d", s};
}
Result c13 (Case const& c) {
  if (c.size () < 2) return ok (false);
  if (c[0] == "e") {
    bool wf = false;
    auto const in = o_u8to32 (c[1], wf);
    if (!wf) return ok (false);
    bool any = false;
    auto const w = o_host_encode (in, any);
    std::string g;
    auto const res = uri::details::puny_encoded (in, std::back_inserter (g));
    if (g != w || res.any_non_ascii != any) return bad ("puny_encoded of \"" + show (c[1]) + "\" gives \"" + show (g) + "\" want \"" + show (w) + "\"");
    auto const sz = uri::details::puny_encoded_size (in);
    if (sz != (any ? w.size () : 0U)) return bad ("puny_encoded_size of \"" + show (c[1]) + "\" gives " + std::to_string (sz));
    // the lazily transcoded range that uri::encode uses
    auto const lazy = c[1] | std::views::transform ([] (char ch) { return static_cast<char8_t> (ch); }) | icubaby::views::transcode<char8_t, char32_t>;
    std::string g2;
    auto const res2 = uri::details::puny_encoded (lazy, std::back_inserter (g2));
    if (g2 != w || res2.any_non_ascii != any) return bad ("puny_encoded of the transcoded view of \"" + show (c[1]) + "\" gives \"" + show (g2) + "\" want \"" + show (w) + "\"");
    bool pre = false;
    for (std::size_t p = 0; p != std::string::npos;) {
      if (c[1].compare (p, 4, "xn--") == 0) pre = true;
      p = c[1].find ('.', p);
      if (p != std::string::npos) ++p;
    }
    if (!pre) {
      std::u8string d;
      auto const r = uri::details::puny_decoded (std::string_view{g}, std::back_inserter (d));
      if (r.index () != 1 || std::string (d.begin (), d.end ()) != c[1]) return bad ("host decode of host encode of \"" + show (c[1]) + "\" gives \"" + show (std::string (d.begin (), d.end ())) + "\"");
    }
    return ok (!in.empty ());
  }
  std::vector<char> v (c[1].begin (), c[1].end ());
  v.shrink_to_fit ();
  std::string w;
  bool any = false;
  bool const good = o_host_decode (c[1], w, any);
  std::u8string d;
  auto const r = uri::details::puny_decoded (v, std::back_inserter (d));
  auto const sz = uri::details::puny_decoded_size (v);
  if ((r.index () == 1) != good) return bad ("puny_decoded of \"" + show (c[1]) + "\" " + (good ? "fails" : "succeeds with \"" + show (std::string (d.begin (), d.end ())) + "\""));
  if ((sz.index () == 1) != good) return bad ("puny_decoded_size of \"" + show (c[1]) + "\" disagrees about failure");
  if (!good) return ok ();
  if (std::string (d.begin (), d.end ()) != w || std::get<1> (r).any_encoded != any) return bad ("puny_decoded of \"" + show (c[1]) + "\" gives \"" + show (std::string (d.begin (), d.end ())) + "\" want \"" + show (w) + "\"");
  if (std::get<1> (sz) != (any ? w.size () : 0U)) return bad ("puny_decoded_size of \"" + show (c[1]) + "\" gives " + std::to_string (std::get<1> (sz)));
  return ok (!c[1].empty ());
}
Reg r11 ("C11", gen11, c11);
Reg r12 ("C12", gen12, c12);
Reg r13 ("C13", gen13, c13);
}  // namespace
