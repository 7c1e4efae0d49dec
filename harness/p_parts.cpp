// C14: encode and decode of parts.
#include "common.hpp"
#include "uri/parts.hpp"

using namespace vf;
namespace {
using OS = std::optional<std::string>;
bool in_set (unsigned char b, unsigned k) {
  if ((k == 1 && b == 0x60) || (k == 4 && b == 0x5e)) return uri::needs_pctencode (static_cast<std::uint_least8_t> (b), static_cast<uri::pctencode_set> (1U << (k - 1U)));
  return o_in_set (b, k);
}
std::string enc (std::string const& s, unsigned k) {
  static char const* hx = "0123456789ABCDEF";
  std::string r;
  for (unsigned char b : s) {
    if (in_set (b, k)) { r += '%'; r += hx[b >> 4U]; r += hx[b & 15U]; }
    else r += static_cast<char> (b);
  }
  return r;
}
std::string host_enc (std::u32string const& in) {
  std::string out;
  std::size_t p = 0;
  for (;;) {
    auto q = in.find (U'.', p);
    bool a = false;
    auto t = o_puny_encode (in.substr (p, q == std::u32string::npos ? q : q - p), true, a);
    out += a ? "xn--" + t : t;
    if (q == std::u32string::npos) return out;
    out += '.';
    p = q + 1;
  }
}
bool has_xn (std::string const& h) {
  for (std::size_t p = 0; p != std::string::npos;) {
    if (h.compare (p, 4, "xn--") == 0) return true;
    p = h.find ('.', p);
    if (p != std::string::npos) ++p;
  }
  return false;
}
bool host_dec (std::string const& in, std::string& out) {
  out.clear ();
  std::size_t p = 0;
  for (;;) {
    auto q = in.find ('.', p);
    auto lab = in.substr (p, q == std::string::npos ? q : q - p);
    if (lab.rfind ("xn--", 0) == 0) {
      std::u32string u;
      if (o_puny_decode (std::string_view (lab).substr (4), u) != 0) return false;
      for (auto& ch : u) if (!o_scalar (ch)) ch = 0xFFFD;
      out += o_u32to8 (u);
    } else out += lab;
    if (q == std::string::npos) return true;
    out += '.';
    p = q + 1;
  }
}
Case gen (Rng& r, unsigned long) {
  PV p;
  auto txt = [&] (unsigned n) -> std::string {
    switch (r.upto (6)) {
    case 0: return rndbytes (r, dlen (r, n));
    case 1: return rndstr (r, uri_alphabet, dlen (r, n));
    case 2: return rndstr (r, "abc%41%zz%", r.len (n));
    case 3: return {};
    default: return rndstr (r, "abcxyz019-._", r.len (n));
    }
  };
  if (r.chance (1, 2)) p.scheme = r.chance (1, 2) ? "http" : txt (4);
  if (r.chance (2, 3)) {
    p.has_auth = true;
    if (r.chance (1, 2)) p.userinfo = txt (6);
    p.host = r.chance (1, 6) ? txt (5) : gen_host_utf8 (r);
    if (r.chance (1, 5)) { bool a = false; p.host = "xn--" + o_puny_encode (gen_u32 (r, true), false, a) + (r.chance (1, 2) ? ".com" : ""); }
    if (r.chance (1, 3)) p.port = r.chance (1, 2) ? "80" : txt (3);
  }
  p.absolute = r.chance (1, 2);
  unsigned n = r.chance (1, 5) ? 20 + r.upto (20) : dlen (r, 4);
  bool sparse = r.chance (1, 2);
  for (unsigned i = 0; i < n; ++i) p.segments.push_back (sparse && !r.chance (1, 8) ? rndstr (r, "ab", r.upto (3)) : txt (4));
  if (r.chance (1, 2)) p.query = txt (6);
  if (r.chance (1, 2)) p.fragment = txt (6);
  Case c{r.chance (1, 2) ? "v" : "s", r.chance (1, 2) ? "0" : "-"};
  put (c, p);
  return c;
}
struct Item { char const* name; std::optional<std::string_view> v; };
std::vector<Item> items (uri::parts const& p) {
  std::vector<Item> r;
  r.push_back ({"scheme", p.scheme});
  r.push_back ({"userinfo", p.authority ? p.authority->userinfo : std::nullopt});
  r.push_back ({"host", p.authority ? std::optional<std::string_view>{p.authority->host} : std::nullopt});
  r.push_back ({"port", p.authority ? p.authority->port : std::nullopt});
  r.push_back ({"query", p.query});
  r.push_back ({"fragment", p.fragment});
  for (auto const& s : p.path.segments) r.push_back ({"path segment", s});
  return r;
}
template <typename Store>
std::string stable (Store const& store, uri::parts const& arg, uri::parts const& res, char const* what) {
  auto const a = items (arg), b = items (res);
  if (a.size () != b.size ()) return std::string (what) + " changes the number of components";
  if (arg.path.absolute != res.path.absolute) return std::string (what) + " changes the absolute flag";
  std::vector<std::pair<std::size_t, std::size_t>> used;
  for (std::size_t i = 0; i < a.size (); ++i) {
    if (a[i].v.has_value () != b[i].v.has_value ()) return std::string (what) + " changes whether the " + a[i].name + " is present";
    if (!b[i].v || b[i].v->empty ()) continue;
    auto const* p = b[i].v->data ();
    if (p == a[i].v->data () && b[i].v->size () == a[i].v->size ()) continue;
    if (std::less<>{}(p, store.data ()) || std::less<>{}(store.data () + store.size (), p + b[i].v->size ())) return std::string (what) + ": the " + a[i].name + " view points neither at the argument's text nor into the store";
    used.emplace_back (static_cast<std::size_t> (p - store.data ()), b[i].v->size ());
  }
  std::size_t total = 0;
  for (auto const& u : used) total += u.second;
  for (std::size_t i = 0; i < used.size (); ++i)
    for (std::size_t j = i + 1; j < used.size (); ++j)
      if (used[i].first < used[j].first + used[j].second && used[j].first < used[i].first + used[i].second) return std::string (what) + ": two components share text in the store";
  if (total != store.size ()) return std::string (what) + ": the store holds " + std::to_string (store.size ()) + " characters but the converted components have " + std::to_string (total);
  return {};
}
template <typename Store> Result run (PV const& v, bool nulls) {
  auto sv = [&] (std::string const& s) { return nulls && s.empty () ? std::string_view{} : std::string_view{s}; };
  auto so = [&] (OS const& o) { return o ? std::optional<std::string_view>{sv (*o)} : std::nullopt; };
  uri::parts p;
  p.scheme = so (v.scheme);
  if (v.has_auth) {
    auto& a = p.ensure_authority ();
    a.userinfo = so (v.userinfo);
    a.host = sv (v.host);
    a.port = so (v.port);
  }
  p.path.absolute = v.absolute;
  for (auto const& s : v.segments) p.path.segments.push_back (sv (s));
  p.query = so (v.query);
  p.fragment = so (v.fragment);

  // what a store holds before the call is of no account
  auto const old = [k = v.host.size () + v.segments.size () + v.query.value_or ("").size ()] (std::size_t const n) { return (k + n) % 3 * 7; };
  Store es (old (0), 'x');
  auto const e = uri::encode (es, p);
  if (auto m = stable (es, p, e, "encode"); !m.empty ()) return bad (m);
  auto cmp = [&] (char const* n, std::optional<std::string_view> g, OS const& w) -> std::string {
    if (g.has_value () != w.has_value () || (g && *g != *w)) return std::string (n) + " is \"" + (g ? show (*g) : "absent") + "\" want " + show (w);
    return {};
  };
  auto eo = [&] (OS const& o, unsigned k) { return o ? OS{enc (*o, k)} : OS{}; };
  if (auto m = cmp ("encode: query", e.query, eo (v.query, 2)); !m.empty ()) return bad (m);
  if (auto m = cmp ("encode: fragment", e.fragment, eo (v.fragment, 1)); !m.empty ()) return bad (m);
  for (std::size_t i = 0; i < v.segments.size (); ++i)
    if (auto m = cmp ("encode: path segment", e.path.segments[i], OS{enc (v.segments[i], 4)}); !m.empty ()) return bad (m);
  bool wf = true;
  if (v.has_auth) {
    if (auto m = cmp ("encode: userinfo", e.authority->userinfo, eo (v.userinfo, 5)); !m.empty ()) return bad (m);
    auto const u = o_u8to32 (v.host, wf);
    if (wf)
      if (auto m = cmp ("encode: host", e.authority->host, OS{host_enc (u)}); !m.empty ()) return bad (m);
    if (v.port && enc (*v.port, 0) == *v.port && e.authority->port->data () != p.authority->port->data ()) return bad ("encode: clean port is not left as it is");
  }
  if (v.scheme && enc (*v.scheme, 0) == *v.scheme && e.scheme->data () != p.scheme->data ()) return bad ("encode: clean scheme is not left as it is");

  Store ds (old (1), 'x');
  auto const d = uri::decode (ds, e);
  auto pct = [] (OS const& o) { return o && o->find ('%') != std::string::npos; };
  bool const promise = !pct (v.scheme) && (!v.has_auth || (!pct (v.port) && wf && !has_xn (v.host)));
  if (promise && d.index () != 1) return bad ("decode of encode fails: " + std::get<0> (d).message ());
  if (d.index () == 1) {
    auto const& q = std::get<1> (d);
    if (auto m = stable (ds, e, q, "decode"); !m.empty ()) return bad (m);
    if (promise) {
      auto const a = items (p), b = items (q);
      for (std::size_t i = 0; i < a.size (); ++i)
        if (a[i].v.has_value () != b[i].v.has_value () || (a[i].v && *a[i].v != *b[i].v)) return bad (std::string ("decode of encode: ") + a[i].name + " is \"" + (b[i].v ? show (*b[i].v) : "absent") + "\" want \"" + (a[i].v ? show (*a[i].v) : "absent") + "\"");
    }
  }
  // decode of the value itself
  Store fs (old (2), 'x');
  auto const f = uri::decode (fs, p);
  std::string hd;
  bool const hok = !v.has_auth || host_dec (v.host, hd);
  if (hok != (f.index () == 1)) return bad (std::string ("decode ") + (hok ? "fails" : "succeeds") + " for host \"" + show (v.host) + "\"");
  if (hok) {
    auto const& q = std::get<1> (f);
    if (auto m = stable (fs, p, q, "decode"); !m.empty ()) return bad (m);
    auto dopt = [] (OS const& o) { return o ? OS{o_pctdecode (*o)} : OS{}; };
    if (auto m = cmp ("decode: scheme", q.scheme, dopt (v.scheme)); !m.empty ()) return bad (m);
    if (auto m = cmp ("decode: query", q.query, dopt (v.query)); !m.empty ()) return bad (m);
    if (auto m = cmp ("decode: fragment", q.fragment, dopt (v.fragment)); !m.empty ()) return bad (m);
    for (std::size_t i = 0; i < v.segments.size (); ++i)
      if (auto m = cmp ("decode: path segment", q.path.segments[i], OS{o_pctdecode (v.segments[i])}); !m.empty ()) return bad (m);
    if (v.has_auth) {
      if (auto m = cmp ("decode: userinfo", q.authority->userinfo, dopt (v.userinfo)); !m.empty ()) return bad (m);
      if (auto m = cmp ("decode: port", q.authority->port, dopt (v.port)); !m.empty ()) return bad (m);
      if (!hd.empty ())
        if (auto m = cmp ("decode: host", q.authority->host, OS{hd}); !m.empty ()) return bad (m);
    }
  }
  return ok ();
}
Result c14 (Case const& c) {
  if (c.size () < 5) return ok (false);
  std::size_t i = 2;
  auto const v = getpv (c, i);
  bool const nulls = c[1] == "0";
  return c[0] == "v" ? run<std::vector<char>> (v, nulls) : run<std::string> (v, nulls);
}
Reg r14 ("C14", gen, c14);
}  // namespace
