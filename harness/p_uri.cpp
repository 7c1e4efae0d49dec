// C01..C08: parsing, composing, validity, dot removal, reference resolution, equality.
#include "common.hpp"
#include <sstream>
#include "uri/uri.hpp"

using namespace vf;
namespace {
using OS = std::optional<std::string>;
OS str (std::optional<std::string_view> const& v) { return v ? OS{std::string (*v)} : OS{}; }
PV conv (uri::parts const& p) {
  PV r;
  r.scheme = str (p.scheme);
  if (p.authority) {
    r.has_auth = true;
    r.userinfo = str (p.authority->userinfo);
    r.host = std::string (p.authority->host);
    r.port = str (p.authority->port);
  }
  r.absolute = p.path.absolute;
  for (auto const& s : p.path.segments) r.segments.emplace_back (s);
  r.query = str (p.query);
  r.fragment = str (p.fragment);
  return r;
}
// views into v (which must outlive the result)
uri::parts view (PV const& v) {
  uri::parts p;
  auto sv = [] (OS const& o) { return o ? std::optional<std::string_view>{std::string_view{*o}} : std::nullopt; };
  p.scheme = sv (v.scheme);
  if (v.has_auth) {
    auto& a = p.ensure_authority ();
    a.userinfo = sv (v.userinfo);
    a.host = v.host;
    a.port = sv (v.port);
  }
  p.path.absolute = v.absolute;
  for (auto const& s : v.segments) p.path.segments.emplace_back (s);
  p.query = sv (v.query);
  p.fragment = sv (v.fragment);
  return p;
}
std::string desc (PV const& p) {
  std::string r = "scheme=" + show (p.scheme) + " authority=" + (p.has_auth ? "{userinfo=" + show (p.userinfo) + " host=\"" + show (p.host) + "\" port=" + show (p.port) + "}" : std::string ("absent")) + " path=" + (p.absolute ? "absolute" : "relative") + "[";
  for (auto const& s : p.segments) r += "\"" + show (s) + "\" ";
  return r + "] query=" + show (p.query) + " fragment=" + show (p.fragment);
}
bool same (PV const& a, PV const& b) {
  return a.scheme == b.scheme && a.has_auth == b.has_auth && (!a.has_auth || (a.userinfo == b.userinfo && a.host == b.host && a.port == b.port)) && a.absolute == b.absolute && a.segments == b.segments && a.query == b.query && a.fragment == b.fragment;
}
// Exact-size heap copy, so that the sanitizer sees reads past the end.
struct Exact {
  std::vector<char> v;
  explicit Exact (std::string const& s) : v (s.begin (), s.end ()) { v.shrink_to_fit (); }
  std::string_view sv () const { return {v.data (), v.size ()}; }
};

char const small_alpha[] = ":/?#[]@%.a1v-";
// short strings over a reduced alphabet in order, then generated ones
Case gen_text (Rng& r, unsigned long i) {
  if (i % 4 == 0) {
    unsigned long k = i / 4;
    std::string s;
    unsigned long base = sizeof small_alpha - 1;
    while (k > 0) { --k; s += small_alpha[k % base]; k /= base; }
    return {s};
  }
  switch (r.upto (12)) {
  case 0: return {rndbytes (r, r.len (6))};
  case 1: return {rndstr (r, uri_alphabet, r.len (10))};
  case 2: { auto s = gen_uri (r, true); auto t = gen_uri (r, false); return {s.substr (0, r.upto (static_cast<unsigned> (s.size ()) + 1)) + t.substr (r.upto (static_cast<unsigned> (t.size ()) + 1))}; }
  default: return {gen_uri (r, r.chance (2, 3))};
  }
}
Result c01 (Case const& c) {
  std::string const in = c.empty () ? std::string{} : c[0];
  Exact const e (in);
  bool nt = false;
  for (int ref = 0; ref < 2; ++ref) {
    auto const got = ref != 0 ? uri::split_reference (e.sv ()) : uri::split (e.sv ());
    auto const want = o_parse (in, ref != 0);
    nt = nt || want.has_value ();
    if (got.has_value () != want.has_value ())
      return bad (std::string (ref != 0 ? "split_reference" : "split") + " of \"" + show (in) + "\" " + (got ? "succeeds" : "yields nothing") + " but RFC 3986 says " + (want ? "accept" : "reject"));
  }
  return ok (nt || in.size () > 1);
}
Result c02 (Case const& c) {
  std::string const in = c.empty () ? std::string{} : c[0];
  Exact const e (in);
  bool nt = false;
  for (int ref = 0; ref < 2; ++ref) {
    auto const got = ref != 0 ? uri::split_reference (e.sv ()) : uri::split (e.sv ());
    if (!got) continue;
    auto const want = o_parse (in, ref != 0);
    if (!want) continue;  // C01's business
    nt = true;
    auto const g = conv (*got);
    if (!same (g, *want)) return bad ("components of \"" + show (in) + "\": got " + desc (g) + " want " + desc (*want));
    // the views are substrings of the input, in the right places
    std::vector<std::pair<char const*, std::size_t>> ranges;
    auto add = [&] (std::optional<std::string_view> v) { if (v && !v->empty ()) ranges.emplace_back (v->data (), v->size ()); };
    add (got->scheme);
    if (got->authority) { add (got->authority->userinfo); add (got->authority->host); add (got->authority->port); }
    for (auto const& s : got->path.segments) add (s);
    add (got->query);
    add (got->fragment);
    char const* at = e.sv ().data ();
    for (auto const& [p, n] : ranges) {
      if (p < at || p + n > e.sv ().data () + e.sv ().size ()) return bad ("component of \"" + show (in) + "\" is not at its place in the input");
      at = p + n;
    }
  }
  return ok (nt);
}
Result c03 (Case const& c) {
  std::string const in = c.empty () ? std::string{} : c[0];
  Exact const e (in);
  bool nt = false;
  for (int ref = 0; ref < 2; ++ref) {
    auto const got = ref != 0 ? uri::split_reference (e.sv ()) : uri::split (e.sv ());
    if (!got) continue;
    nt = true;
    auto const t = uri::compose (*got);
    if (t != in) return bad ("compose(split(\"" + show (in) + "\")) = \"" + show (t) + "\"");
    std::ostringstream o1, o2, o3, o4;
    uri::compose (o1, *got);
    o2 << *got;
    if (o1.str () != in || o2.str () != in) return bad ("stream composition of \"" + show (in) + "\" gives \"" + show (o1.str ()) + "\" / \"" + show (o2.str ()) + "\"");
    auto const g = conv (*got);
    o3 << got->path;
    if (o3.str () != o_path_text (g)) return bad ("stream insertion of the path of \"" + show (in) + "\" gives \"" + show (o3.str ()) + "\"");
    if (got->authority) {
      o4 << *got->authority;
      std::string a = (g.userinfo ? *g.userinfo + "@" : "") + g.host + (g.port ? ":" + *g.port : "");
      if (o4.str () != a) return bad ("stream insertion of the authority of \"" + show (in) + "\" gives \"" + show (o4.str ()) + "\"");
    }
  }
  return ok (nt);
}
Case gen_parts (Rng& r, unsigned long) {
  Case c;
  auto p = gen_pv (r, r.chance (2, 3));
  if (r.chance (1, 4)) p.scheme = "s";
  if (r.chance (1, 6)) { p.segments.insert (p.segments.begin (), r.upto (3), ""); }
  put (c, p);
  return c;
}
Case gen_parts_clean (Rng& r, unsigned long i) {
  if (i % 3 == 0) return gen_parts (r, i);
  Case c;
  auto p = gen_pv (r, false);
  if (!p.scheme) p.scheme = "s";
  if (r.chance (1, 4)) p.segments.insert (p.segments.begin (), r.upto (4), "");
  if (r.chance (1, 2)) { p.has_auth = false; }
  put (c, p);
  return c;
}
bool o_auth_valid (PV const& v) { return (!v.userinfo || o_userinfo (*v.userinfo)) && o_host (v.host) && (!v.port || o_port (*v.port)); }
bool o_path_valid (PV const& v) {
  for (auto const& s : v.segments) if (!o_segment (s)) return false;
  return true;
}
bool o_valid (PV const& v) {
  return v.scheme && o_scheme (*v.scheme) && (!v.has_auth || o_auth_valid (v)) && o_path_valid (v) && (!v.query || o_query (*v.query)) && (!v.fragment || o_query (*v.fragment)) && (v.has_auth || o_path_text (v).substr (0, 2) != "//");
}
Result c04 (Case const& c) {
  std::size_t i = 0;
  auto const v = getpv (c, i);
  auto const p = view (v);
  if (p.valid () != o_valid (v)) return bad (std::string ("valid() is ") + (p.valid () ? "true" : "false") + " for " + desc (v));
  if (p.path.valid () != o_path_valid (v)) return bad (std::string ("path::valid() is ") + (p.path.valid () ? "true" : "false") + " for " + desc (v));
  if (p.authority && p.authority->valid () != o_auth_valid (v)) return bad (std::string ("authority::valid() is ") + (p.authority->valid () ? "true" : "false") + " for " + desc (v));
  return ok (v.scheme.has_value ());
}
Result c05 (Case const& c) {
  std::size_t i = 0;
  auto const v = getpv (c, i);
  auto const p = view (v);
  if (!p.valid ()) return ok (false);
  auto const t = uri::compose (p);
  auto const q = uri::split (t);
  if (!q) return bad ("valid() parts compose to \"" + show (t) + "\" which split() rejects; parts: " + desc (v));
  auto const g = conv (*q);
  bool const comps = g.scheme == v.scheme && g.has_auth == v.has_auth && (!v.has_auth || (g.userinfo == v.userinfo && g.host == v.host && g.port == v.port)) && g.query == v.query && g.fragment == v.fragment;
  auto pt = o_path_text (v);
  if (v.has_auth && !v.absolute && !v.segments.empty ()) pt = "/" + pt;
  if (!comps || o_path_text (g) != pt) return bad ("valid() parts " + desc (v) + " compose to \"" + show (t) + "\" which splits to " + desc (g));
  return ok ();
}
// ---- C06 ----
PV o_rds (PV v) {
  std::vector<std::string> out;
  bool last = false;
  for (auto const& s : v.segments) {
    last = s == "." || s == "..";
    if (s == "..") { if (!out.empty ()) out.pop_back (); }
    else if (s != ".") out.push_back (s);
  }
  if (last) out.emplace_back ();
  v.segments = out;
  return v;
}
// RFC 3986 section 5.2.4, the string algorithm as written there
std::string o_rds_text (std::string in) {
  std::string out;
  auto pre = [&] (char const* p) { return in.rfind (p, 0) == 0; };
  auto pop = [&] { auto k = out.rfind ('/'); out.resize (k == std::string::npos ? 0 : k); };
  while (!in.empty ()) {
    if (pre ("../")) in.erase (0, 3);
    else if (pre ("./")) in.erase (0, 2);
    else if (pre ("/./")) in.erase (0, 2);
    else if (in == "/.") in = "/";
    else if (pre ("/../")) { in.erase (0, 3); pop (); }
    else if (in == "/..") { in = "/"; pop (); }
    else if (in == "." || in == "..") in.clear ();
    else {
      auto k = in.find ('/', 1);
      if (k == std::string::npos) k = in.size ();
      out += in.substr (0, k);
      in.erase (0, k);
    }
  }
  return out;
}
bool no_slash (PV const& v) {
  for (auto const& s : v.segments) if (s.find ('/') != std::string::npos) return false;
  return true;
}
Case gen_path (Rng& r, unsigned long i) {
  PV v;
  v.absolute = r.chance (1, 2);
  if (i % 2 == 0) {  // all short lists over five kinds
    static char const* kinds[] = {".", "..", "", "a", "bb"};
    unsigned long k = i / 2;
    v.absolute = (k & 1U) != 0;
    k >>= 1U;
    while (k > 0) { --k; v.segments.emplace_back (kinds[k % 5]); k /= 5; }
  } else {
    unsigned n = dlen (r, 8);
    bool dirty = r.chance (1, 3);
    for (unsigned j = 0; j < n; ++j) v.segments.push_back (r.chance (1, 3) ? (r.chance (1, 2) ? ".." : ".") : gen_segment (r, dirty));
  }
  Case c;
  put (c, v);
  return c;
}
Result c06 (Case const& c) {
  std::size_t i = 0;
  auto const v = getpv (c, i);
  auto p = view (v);
  p.path.remove_dot_segments ();
  auto const g = conv (p);
  auto const w = o_rds (v);
  if (g.segments != w.segments || g.absolute != v.absolute) return bad ("remove_dot_segments of " + desc (v) + " gives " + desc (g) + " want " + desc (w));
  for (auto const& s : g.segments) if (s == "." || s == "..") return bad ("dot segment left in " + desc (g));
  auto q = p;
  q.path.remove_dot_segments ();
  if (q.path.segments != p.path.segments) return bad ("remove_dot_segments is not idempotent on " + desc (v));
  if (v.absolute && !v.segments.empty () && no_slash (v)) {
    auto const t = o_rds_text (o_path_text (v));
    if (static_cast<std::string> (p.path) != t) return bad ("remove_dot_segments of \"" + show (o_path_text (v)) + "\" gives \"" + show (static_cast<std::string> (p.path)) + "\" but RFC 3986 gives \"" + show (t) + "\"");
  }
  return ok (!v.segments.empty ());
}
// ---- C07 ----
PV o_join (PV const& base, PV const& ref, bool strict) {
  PV t;
  bool const scheme = ref.scheme && (strict || ref.scheme != base.scheme);
  auto path_of = [&] (PV const& x) { t.absolute = x.absolute; t.segments = x.segments; };
  auto rds = [&] { t.segments = o_rds (t).segments; };
  auto auth_of = [&] (PV const& x) { t.has_auth = x.has_auth; t.userinfo = x.userinfo; t.host = x.host; t.port = x.port; };
  if (scheme) { t.scheme = ref.scheme; auth_of (ref); path_of (ref); rds (); t.query = ref.query; }
  else {
    if (ref.has_auth) { auth_of (ref); path_of (ref); rds (); t.query = ref.query; }
    else {
      if (ref.segments.empty ()) { path_of (base); t.query = ref.query ? ref.query : base.query; }
      else {
        if (ref.absolute) path_of (ref);
        else if (base.has_auth && base.segments.empty ()) { path_of (ref); t.absolute = true; }
        else {
          t.absolute = base.absolute;
          t.segments = base.segments;
          if (!t.segments.empty ()) t.segments.pop_back ();
          t.segments.insert (t.segments.end (), ref.segments.begin (), ref.segments.end ());
        }
        rds ();
        t.query = ref.query;
      }
      auth_of (base);
    }
    t.scheme = base.scheme;
  }
  t.fragment = ref.fragment;
  return t;
}
// the text algorithm of section 5.2.2 on absolute (or authority) bases
std::optional<std::string> o_join_text (PV const& base, PV const& ref, bool strict) {
  PV t;
  auto const rp = o_path_text (ref), bp = o_path_text (base);
  std::string path;
  bool const scheme = ref.scheme && (strict || ref.scheme != base.scheme);
  auto auth_of = [&] (PV const& x) { t.has_auth = x.has_auth; t.userinfo = x.userinfo; t.host = x.host; t.port = x.port; };
  auto rel = [] (std::string const& s) { return !s.empty () && s[0] != '/'; };
  if (scheme || ref.has_auth) {
    if (rel (rp)) return std::nullopt;  // rootless text: only the segment form is claimed
    auth_of (ref);
    path = o_rds_text (rp);
    t.query = ref.query;
  } else {
    if (rp.empty ()) { path = bp; t.query = ref.query ? ref.query : base.query; }
    else {
      std::string m;
      if (rp[0] == '/') m = rp;
      else if (base.has_auth && bp.empty ()) m = "/" + rp;
      else { auto k = bp.rfind ('/'); m = (k == std::string::npos ? std::string{} : bp.substr (0, k + 1)) + rp; }
      if (rel (m)) return std::nullopt;
      path = o_rds_text (m);
      t.query = ref.query;
    }
    auth_of (base);
  }
  t.scheme = scheme ? ref.scheme : base.scheme;
  t.fragment = ref.fragment;
  PV h = t;
  std::string s = o_compose (PV{h.scheme, h.has_auth, h.userinfo, h.host, h.port, false, {}, {}, {}}) + path;
  if (t.query) s += "?" + *t.query;
  if (t.fragment) s += "#" + *t.fragment;
  return s;
}
Case gen_join (Rng& r, unsigned long) {
  Case c;
  c.push_back (r.chance (1, 3) ? "n" : "s");
  if (r.chance (1, 2)) {
    c.push_back ("text");
    auto b = gen_uri (r, r.chance (9, 10));
    c.push_back (b);
    auto ref = gen_uri (r, false);
    if (r.chance (1, 6)) { auto k = b.find (':'); if (k != std::string::npos) ref = b.substr (0, k + 1) + ref; }
    c.push_back (ref);
  } else {
    c.push_back ("parts");
    auto b = gen_pv (r, false);
    auto ref = gen_pv (r, false);
    if (r.chance (1, 3)) { ref.scheme.reset (); if (r.chance (3, 4)) ref.has_auth = false; }
    if (r.chance (1, 6)) ref.scheme = b.scheme;
    auto fix = [] (PV& p) { if (p.segments.empty ()) p.absolute = false; if (!p.has_auth) { p.userinfo.reset (); p.port.reset (); p.host.clear (); } };
    fix (b);
    fix (ref);
    put (c, b);
    put (c, ref);
  }
  return c;
}
PV norm (PV p) {
  if (!p.has_auth) { p.userinfo.reset (); p.port.reset (); p.host.clear (); }
  return p;
}
Result c07 (Case const& c) {
  if (c.size () < 4) return ok (false);
  bool const strict = c[0] == "s";
  if (c[1] == "text") {
    auto const j = uri::join (c[2], c[3], strict);
    auto const b = uri::split (c[2]);
    auto const r = uri::split_reference (c[3]);
    auto const ob = o_parse (c[2], false);
    auto const orf = o_parse (c[3], true);
    if (j.has_value () != (b.has_value () && r.has_value ())) return bad ("join of \"" + show (c[2]) + "\" and \"" + show (c[3]) + "\" " + (j ? "succeeds" : "yields nothing"));
    if (!j) return ok (false);
    auto const k = uri::join (*b, *r, strict);
    if (!same (norm (conv (k)), norm (conv (*j)))) return bad ("the two join overloads disagree on \"" + show (c[2]) + "\" and \"" + show (c[3]) + "\"");
    if (!ob || !orf) return ok (false);
    auto const w = o_join (*ob, *orf, strict);
    if (!same (norm (conv (*j)), norm (w))) return bad ("join of \"" + show (c[2]) + "\" and \"" + show (c[3]) + "\" gives " + desc (conv (*j)) + " want " + desc (w));
    if (auto t = o_join_text (*ob, *orf, strict); t && *t != uri::compose (*j)) return bad ("join of \"" + show (c[2]) + "\" and \"" + show (c[3]) + "\" gives \"" + show (uri::compose (*j)) + "\" but RFC 3986 section 5.2 gives \"" + show (*t) + "\"");
    return ok ();
  }
  std::size_t i = 2;
  auto const b = getpv (c, i);
  auto const r = getpv (c, i);
  auto const pb = view (b);
  auto const pr = view (r);
  auto const j = uri::join (pb, pr, strict);
  auto const w = o_join (b, r, strict);
  if (!same (norm (conv (j)), norm (w))) return bad ("join of base " + desc (b) + " and reference " + desc (r) + " gives " + desc (conv (j)) + " want " + desc (w));
  return ok ();
}
// ---- C08 ----
Case gen_eq (Rng& r, unsigned long) {
  Case c;
  auto a = gen_pv (r, false);
  auto tweak = [&] (PV b) {
    switch (r.upto (14)) {
    case 0: b.scheme = b.scheme ? OS{} : OS{""}; break;
    case 1: b.has_auth = !b.has_auth; break;
    case 2: b.userinfo = b.userinfo ? OS{} : OS{""}; break;
    case 3: b.host += "x"; break;
    case 4: b.port = b.port ? OS{} : OS{""}; break;
    case 5: b.absolute = !b.absolute; break;
    case 6: b.segments.emplace_back (""); break;
    case 7: if (!b.segments.empty ()) b.segments[r.upto (static_cast<unsigned> (b.segments.size ()))] += "y"; break;
    case 8: b.query = b.query ? OS{} : OS{""}; break;
    case 9: b.fragment = b.fragment ? OS{} : OS{""}; break;
    case 10: if (!b.segments.empty ()) b.segments.pop_back (); break;
    case 11: if (b.query) *b.query += "q"; if (b.userinfo && r.chance (1, 2)) *b.userinfo += "u"; break;
    case 12: if (b.fragment) *b.fragment += "q"; if (b.port && r.chance (1, 2)) *b.port += "1"; break;
    default: break;
    }
    return b;
  };
  put (c, a);
  auto b = tweak (a);
  put (c, b);
  put (c, tweak (r.chance (1, 2) ? a : b));
  return c;
}
bool o_eq (PV const& a, PV const& b) {
  if (a.scheme != b.scheme || a.has_auth != b.has_auth || a.query != b.query || a.fragment != b.fragment || a.segments != b.segments) return false;
  if (a.has_auth) return a.userinfo == b.userinfo && a.host == b.host && a.port == b.port;
  return a.absolute == b.absolute;
}
Result c08 (Case const& c) {
  std::size_t i = 0;
  PV v[3];
  for (auto& x : v) x = getpv (c, i);
  uri::parts p[3] = {view (v[0]), view (v[1]), view (v[2])};
  bool e[3][3];
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b) {
      e[a][b] = p[a] == p[b];
      if (e[a][b] != o_eq (v[a], v[b])) return bad (std::string ("operator== is ") + (e[a][b] ? "true" : "false") + " for " + desc (v[a]) + " and " + desc (v[b]));
      if ((p[a] != p[b]) == e[a][b]) return bad ("operator!= is not the negation of operator== for " + desc (v[a]) + " and " + desc (v[b]));
      if (e[a][b] && uri::compose (p[a]) != uri::compose (p[b])) return bad ("equal parts compose differently: " + desc (v[a]) + " and " + desc (v[b]));
      bool const pe = v[a].absolute == v[b].absolute && v[a].segments == v[b].segments;
      if ((p[a].path == p[b].path) != pe || (p[a].path != p[b].path) == pe) return bad ("path equality is wrong for " + desc (v[a]) + " and " + desc (v[b]));
      if (v[a].has_auth && v[b].has_auth) {
        bool const ae = v[a].userinfo == v[b].userinfo && v[a].host == v[b].host && v[a].port == v[b].port;
        if ((*p[a].authority == *p[b].authority) != ae || (*p[a].authority != *p[b].authority) == ae) return bad ("authority equality is wrong for " + desc (v[a]) + " and " + desc (v[b]));
      }
    }
  for (int a = 0; a < 3; ++a) {
    if (!e[a][a]) return bad ("operator== is not reflexive for " + desc (v[a]));
    for (int b = 0; b < 3; ++b) {
      if (e[a][b] != e[b][a]) return bad ("operator== is not symmetric");
      for (int d = 0; d < 3; ++d)
        if (e[a][b] && e[b][d] && !e[a][d]) return bad ("operator== is not transitive");
    }
  }
  return ok ();
}
Reg r1 ("C01", gen_text, c01);
Reg r2 ("C02", gen_text, c02);
Reg r3 ("C03", gen_text, c03);
Reg r4 ("C04", gen_parts, c04);
Reg r5 ("C05", gen_parts_clean, c05);
Reg r6 ("C06", gen_path, c06);
Reg r7 ("C07", gen_join, c07);
Reg r8 ("C08", gen_eq, c08);
}  // namespace
