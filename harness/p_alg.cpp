// C17: find_last and starts_with.
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <forward_list>
#include <iterator>
#include <list>
#include <sstream>
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"

using namespace vf;
namespace {
Case gen (Rng& r, unsigned long i) {
  static char const al[] = "abc";
  std::string s, t;
  if (i % 2 == 0) {
    unsigned long k = i / 2;
    while (k > 0) { --k; s += al[k % 3]; k /= 3; }
  } else s = r.chance (1, 4) ? rndbytes (r, dlen (r, 8)) : rndstr (r, al, dlen (r, 8));
  if (r.chance (1, 2)) { t = s.substr (0, r.upto (static_cast<unsigned> (s.size ()) + 1)); if (r.chance (1, 3)) t += rndstr (r, "ab", r.upto (3)); if (r.chance (1, 4) && !t.empty ()) t[r.upto (static_cast<unsigned> (t.size ()))] = 'c'; }
  else t = rndstr (r, al, r.len (4));
  return {s, t, std::string (1, r.chance (1, 3) ? static_cast<char> (r.upto (256)) : al[r.upto (3)])};
}
template <typename R, typename P> std::string fl (R& range, std::string const& s, int v, P proj, char const* what) {
  std::size_t want = s.size ();
  for (std::size_t i = 0; i < s.size (); ++i) if (proj (s[i]) == v) want = i;
  auto chk = [&] (auto const& sub, char const* how) -> std::string {
    auto const b = std::distance (std::ranges::begin (range), sub.begin ());
    bool const e = sub.end () == std::ranges::end (range);
    if (static_cast<std::size_t> (b) != want || !e || (want == s.size ()) != sub.empty ()) return std::string ("find_last (") + what + ", " + how + ") of " + std::to_string (v) + " in \"" + show (s) + "\" starts at " + std::to_string (b) + " want " + std::to_string (want) + (e ? "" : ", and does not extend to the end");
    return {};
  };
  if (auto m = chk (uri::find_last (range, v, proj), "range"); !m.empty ()) return m;
  return chk (uri::find_last (std::ranges::begin (range), std::ranges::end (range), v, proj), "iterators");
}
// Forward iterator with a sentinel of another type.
struct Sent { char const* e; friend bool operator== (char const* p, Sent s) { return p == s.e; } };
Result c17 (Case const& c) {
  if (c.size () < 3 || c[2].empty ()) return ok (false);
  auto const& s = c[0];
  auto const& t = c[1];
  char const v = c[2][0];
  std::vector<char> vec (s.begin (), s.end ());
  vec.shrink_to_fit ();
  std::list<char> lst (s.begin (), s.end ());
  std::forward_list<char> fwd (s.begin (), s.end ());
  auto id = [] (char x) -> int { return x; };
  auto up = [] (char x) -> int { return x == 'a' ? 'b' : x; };
  if (auto m = fl (vec, s, v, id, "vector"); !m.empty ()) return bad (m);
  if (auto m = fl (lst, s, v, id, "list"); !m.empty ()) return bad (m);
  if (auto m = fl (fwd, s, v, id, "forward_list"); !m.empty ()) return bad (m);
  if (auto m = fl (vec, s, v, up, "vector, projected"); !m.empty ()) return bad (m);
  if (auto m = fl (fwd, s, v, up, "forward_list, projected"); !m.empty ()) return bad (m);
  std::string const& cs = s;
  if (auto m = fl (cs, s, v, id, "string"); !m.empty ()) return bad (m);
  {
    auto const sub = uri::find_last (static_cast<char const*> (vec.data ()), Sent{vec.data () + vec.size ()}, v);
    auto const k = s.rfind (v);
    auto const want = k == std::string::npos ? s.size () : k;
    if (sub.begin () != vec.data () + want || sub.end () != vec.data () + s.size ()) return bad ("find_last with a sentinel, of \"" + show (std::string (1, v)) + "\" in \"" + show (s) + "\"");
    auto const sub2 = uri::find_last (vec, v);
    if (static_cast<std::size_t> (sub2.begin () - vec.begin ()) != want || sub2.end () != vec.end ()) return bad ("find_last of a vector without projection, \"" + show (s) + "\"");
  }
  // starts_with
  std::list<char> pre (t.begin (), t.end ());
  std::vector<char> pv (t.begin (), t.end ());
  pv.shrink_to_fit ();
  bool const w = s.compare (0, t.size (), t) == 0 && t.size () <= s.size ();
  auto tag = [&] (char const* how) { return std::string ("starts_with (") + how + ") of \"" + show (s) + "\" and \"" + show (t) + "\" is not " + (w ? "true" : "false"); };
  if (uri::starts_with (vec, pv) != w) return bad (tag ("vector, vector"));
  if (uri::starts_with (fwd, pre) != w) return bad (tag ("forward_list, list"));
  if (uri::starts_with (vec.begin (), vec.end (), pre.begin (), pre.end ()) != w) return bad (tag ("iterators"));
  {
    std::istringstream is (s);
    is.unsetf (std::ios::skipws);
    if (uri::starts_with (std::istreambuf_iterator<char> (is), std::istreambuf_iterator<char>{}, pv.begin (), pv.end ()) != w) return bad (tag ("input iterators"));
  }
  auto p1 = [] (char x) -> int { return x == 'a' ? 1 : x == 'b' ? 2 : 3; };
  auto p2 = [] (char x) -> int { return x == 'c' ? 3 : x == 'b' ? 1 : 2; };
  auto pred = [] (int x, int y) { return x <= y; };
  bool w2 = t.size () <= s.size ();
  for (std::size_t i = 0; w2 && i < t.size (); ++i) w2 = p1 (s[i]) <= p2 (t[i]);
  if (uri::starts_with (vec, pv, pred, p1, p2) != w2) return bad ("starts_with (predicate, projections) of \"" + show (s) + "\" and \"" + show (t) + "\" is not " + (w2 ? "true" : "false"));
  if (uri::starts_with (lst.begin (), lst.end (), pre.begin (), pre.end (), pred, p1, p2) != w2) return bad ("starts_with (iterators, predicate, projections) of \"" + show (s) + "\" and \"" + show (t) + "\" is not " + (w2 ? "true" : "false"));
  return ok (!s.empty ());
}
Reg r17 ("C17", gen, c17);
}  // namespace
