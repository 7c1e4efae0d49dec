// C15: transcoding between UTF-8, UTF-16 and UTF-32.
#include "common.hpp"
#include <ranges>
#include <algorithm>
#include <set>
#include <utility>
#include <vector>
#include "uri/icubaby.hpp"

using namespace vf;
namespace {
// ---- oracle: decode/encode per the Unicode Standard ----
template <typename C> bool dec (std::basic_string<C> const& s, std::u32string& out);
template <> bool dec<char8_t> (std::u8string const& s, std::u32string& out) {
  bool wf = false;
  out = o_u8to32 (std::string (s.begin (), s.end ()), wf);
  return wf;
}
template <> bool dec<char16_t> (std::u16string const& s, std::u32string& out) {
  out.clear ();
  for (std::size_t i = 0; i < s.size (); ++i) {
    std::uint32_t c = s[i];
    if (c >= 0xD800 && c <= 0xDBFF) {
      if (i + 1 >= s.size () || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) return false;
      c = 0x10000 + ((c - 0xD800) << 10U) + (s[i + 1] - 0xDC00U);
      ++i;
    } else if (c >= 0xDC00 && c <= 0xDFFF) return false;
    out += static_cast<char32_t> (c);
  }
  return true;
}
template <> bool dec<char32_t> (std::u32string const& s, std::u32string& out) {
  out = s;
  return std::all_of (s.begin (), s.end (), [] (char32_t c) { return o_scalar (c); });
}
template <typename C> std::basic_string<C> encu (std::u32string const& s);
template <> std::u8string encu<char8_t> (std::u32string const& s) {
  auto t = o_u32to8 (s);
  return {t.begin (), t.end ()};
}
template <> std::u16string encu<char16_t> (std::u32string const& s) {
  std::u16string r;
  for (char32_t c : s) {
    if (c < 0x10000) r += static_cast<char16_t> (c);
    else { r += static_cast<char16_t> (0xD800 + ((c - 0x10000) >> 10U)); r += static_cast<char16_t> (0xDC00 + ((c - 0x10000) & 0x3FFU)); }
  }
  return r;
}
template <> std::u32string encu<char32_t> (std::u32string const& s) { return s; }

template <typename C> std::basic_string<C> unpack (std::string const& s) {
  std::basic_string<C> r;
  for (std::size_t i = 0; i + sizeof (C) <= s.size (); i += sizeof (C)) {
    std::uint32_t v = 0;
    for (unsigned k = 0; k < sizeof (C); ++k) v |= static_cast<std::uint32_t> (static_cast<unsigned char> (s[i + k])) << (8 * k);
    r += static_cast<C> (v);
  }
  return r;
}
template <typename C> std::string pack (std::basic_string<C> const& s) {
  std::string r;
  for (C c : s) for (unsigned k = 0; k < sizeof (C); ++k) r += static_cast<char> (static_cast<std::uint32_t> (c) >> (8 * k));
  return r;
}
template <typename C> std::string hexs (std::basic_string<C> const& s) {
  std::string r;
  char b[16];
  for (C c : s) { std::snprintf (b, sizeof b, "%02X ", static_cast<unsigned> (c)); r += b; }
  return r;
}
template <typename F, typename T> std::basic_string<T> conv (std::basic_string<F> const& in, bool& wf, int how) {
  std::basic_string<T> out;
  icubaby::transcoder<F, T> t;
  if (how == 0) {
    auto it = std::back_inserter (out);
    for (F c : in) it = t (c, it);
    t.end_cp (it);
    wf = t.well_formed ();
  } else if (how == 1) {
    icubaby::iterator it{&t, std::back_inserter (out)};
    it = std::copy (in.begin (), in.end (), it);
    t.end_cp (it);
    wf = t.well_formed ();
  } else {
    auto v = in | icubaby::views::transcode<F, T>;
    for (auto i = v.begin (), e = v.end (); i != e; ++i) out += static_cast<T> (*i);
    wf = v.well_formed ();
  }
  return out;
}
// May "out" be what an ill-formed "in" converts to? Characters of well-formed text come out as they are. An unpaired surrogate and
// an invalid UTF-32 unit give one U+FFFD each. An ill-formed UTF-8 sequence gives one U+FFFD or more, and conversion resumes after
// any part of it up to and including the byte that shows the error.
template <typename F> bool marked (std::basic_string<F> const& in, std::u32string const& out) {
  std::vector<std::pair<std::size_t, std::size_t>> work{{0, 0}};
  std::set<std::pair<std::size_t, std::size_t>> seen;
  while (!work.empty ()) {
    auto const s = work.back ();
    auto const [i, o] = s;
    work.pop_back ();
    if (!seen.insert (s).second) continue;
    if (i == in.size () && o == out.size ()) return true;
    if (i == in.size () || o == out.size ()) continue;
    std::size_t k = 1;
    std::u32string u;
    while (k <= 4 && i + k <= in.size () && !(dec<F> (in.substr (i, k), u) && u.size () == 1)) ++k;
    if (k <= 4 && i + k <= in.size ()) {
      if (out[o] == u[0]) work.emplace_back (i + k, o + 1);
      continue;
    }
    if (out[o] != 0xFFFD) continue;
    if constexpr (sizeof (F) != 1) work.emplace_back (i + 1, o + 1);
    else {
      auto const b = static_cast<unsigned> (in[i]);
      std::size_t const n = b >= 0xC2 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF4 ? 4 : 1;
      std::size_t j = i + 1;
      while (j < in.size () && j < i + n) {
        auto const x = static_cast<unsigned> (in[j]);
        if (x < 0x80 || x > 0xBF || (j == i + 1 && ((b == 0xE0 && x < 0xA0) || (b == 0xED && x > 0x9F) || (b == 0xF0 && x < 0x90) || (b == 0xF4 && x > 0x8F)))) break;
        ++j;
      }
      std::size_t const last = n == 1 ? i + 1 : std::min (j + 1, in.size ());
      for (std::size_t m = 1; o + m <= out.size () && out[o + m - 1] == 0xFFFD; ++m)
        for (std::size_t r = i + 1; r <= last; ++r) work.emplace_back (r, o + m);
    }
  }
  return false;
}
template <typename F, typename T> Result one (std::string const& bytes) {
  auto const in = unpack<F> (bytes);
  std::u32string u;
  bool const good = dec<F> (in, u);
  for (int how = 0; how < 3; ++how) {
    bool wf = false;
    auto const out = conv<F, T> (in, wf, how);
    static char const* hows[] = {"transcoder", "icubaby::iterator", "views::transcode"};
    auto tag = [&] { return std::string (" (") + hows[how] + ", UTF-" + std::to_string (8 * sizeof (F)) + " to UTF-" + std::to_string (8 * sizeof (T)) + ", input " + hexs (in) + ")"; };
    if (wf != good) return bad (std::string ("well_formed() is ") + (wf ? "true" : "false") + tag ());
    std::u32string back;
    if (good) {
      if (out != encu<T> (u)) return bad ("output " + hexs (out) + "want " + hexs (encu<T> (u)) + tag ());
      bool w2 = false;
      auto const b = conv<T, F> (out, w2, how);
      if (b != in || !w2) return bad ("converting back gives " + hexs (b) + tag ());
    } else {
      if (!dec<T> (out, back)) return bad ("output " + hexs (out) + "is not well-formed" + tag ());
      if (back.find (0xFFFD) == std::u32string::npos) return bad ("no U+FFFD in output " + hexs (out) + tag ());
      if (!marked<F> (in, back)) return bad ("output " + hexs (out) + "is not the text with its ill-formed parts replaced by U+FFFD" + tag ());
    }
  }
  return ok (!in.empty ());
}
Case gen (Rng& r, unsigned long i) {
  static char const w[] = "8fp";  // source width: UTF-8, UTF-16, UTF-32
  std::string from (1, w[r.upto (3)]);
  if (i < 0x1200) {  // a sweep over single scalars at the low end and a stride through the rest
    std::uint32_t c = i < 0x900 ? static_cast<std::uint32_t> (i) : static_cast<std::uint32_t> ((i - 0x900) * 483 + r.upto (483));
    if (o_scalar (c)) {
      std::u32string s (1, static_cast<char32_t> (c));
      if (from == "8") return {from, pack (encu<char8_t> (s))};
      if (from == "f") return {from, pack (encu<char16_t> (s))};
      return {from, pack (s)};
    }
  }
  auto const s = gen_u32 (r, true);
  std::string b;
  if (from == "8") {
    b = pack (encu<char8_t> (s));
    static char const edges[] = "\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf8\xff";
    if (r.chance (1, 2)) b = mutate (r, b, std::string_view{edges, 24});
    if (r.chance (1, 6)) { b.clear (); unsigned n = 1 + r.upto (5); for (unsigned k = 0; k < n; ++k) b += edges[r.upto (24)]; }
  } else if (from == "f") {
    auto t = encu<char16_t> (s);
    static std::uint16_t const e[] = {0, 0x7f, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffd, 0xffff};
    unsigned n = r.upto (4);
    for (unsigned k = 0; k < n; ++k) {
      auto pos = r.upto (static_cast<unsigned> (t.size ()) + 1);
      if (r.chance (1, 3) && pos < t.size ()) t.erase (pos, 1);
      else t.insert (pos, 1, static_cast<char16_t> (r.chance (1, 4) ? 0xD800 + r.upto (0x800) : e[r.upto (12)]));
    }
    if (r.chance (1, 5)) { t.clear (); unsigned m = 1 + r.upto (5); for (unsigned k = 0; k < m; ++k) t += static_cast<char16_t> (r.chance (1, 5) ? 'A' : r.chance (1, 4) ? 0xD800 + r.upto (0x800) : e[r.upto (12)]); }
    b = pack (t);
  } else {
    auto t = s;
    static std::uint32_t const e[] = {0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x110001, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff};
    unsigned n = r.upto (3);
    for (unsigned k = 0; k < n; ++k) t.insert (r.upto (static_cast<unsigned> (t.size ()) + 1), 1, static_cast<char32_t> (r.chance (1, 4) ? static_cast<std::uint32_t> (r.next ()) : e[r.upto (11)]));
    if (r.chance (1, 6)) { t.clear (); unsigned m = 1 + r.upto (4); for (unsigned k = 0; k < m; ++k) t += static_cast<char32_t> (r.chance (1, 4) ? 'A' : e[r.upto (11)]); }
    b = pack (t);
  }
  return {from, b};
}
Result c15 (Case const& c) {
  if (c.size () < 2) return ok (false);
  auto all = [&]<typename F> (F) -> Result {
    if (auto r = one<F, char8_t> (c[1]); !r.fail.empty ()) return r;
    if (auto r = one<F, char16_t> (c[1]); !r.fail.empty ()) return r;
    return one<F, char32_t> (c[1]);
  };
  if (c[0] == "8") return all (char8_t{});
  if (c[0] == "f") return all (char16_t{});
  return all (char32_t{});
}
Reg r15 ("C15", gen, c15);
}  // namespace
